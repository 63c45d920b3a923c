// C35: the OpenAI client sends exactly the conversation it is given and hands over every streamed chunk once, in order, unaltered.
#include "client.hpp"
#include "json_types.hpp"
#include <HXLibs/ai/openai.hpp>
using namespace ct; using namespace HX::net; namespace co = HX::coroutine; namespace ai = HX::ai::openai; using TK = co::Task<>; using dom::Dom;
namespace jt {
using M = ai::Message; using Rq = ai::ChatCompletionRequest; using Ck = ai::ChatCompletionChunk;
JT(M::ContentPartText, "text", v.text, "type", v.type)
JT(M::ContentPartImage::ImageUrl, "url", v.url, "detail", v.detail)
JT(M::ContentPartImage, "image_url", v.image_url, "type", v.type)
JT(M::ToolCall::Function, "name", v.name, "arguments", v.arguments)
JT(M::ToolCall, "id", v.id, "function", v.function, "type", v.type)
JT(M, "role", v.role, "content", v.content, "name", v.name, "tool_calls", v.tool_calls, "tool_call_id", v.tool_call_id)
JT(ai::Tool::Function, "name", v.name, "description", v.description, "parameters", v.parameters)
JT(ai::Tool, "function", v.function, "type", v.type)
JT(ai::ToolChoiceFunction, "name", v.name)
JT(ai::ResponseFormat, "type", v.type)
JT(Rq, "model", v.model, "messages", v.messages, "stream", v.stream, "temperature", v.temperature, "max_tokens", v.max_tokens, "top_p", v.top_p, "frequency_penalty", v.frequency_penalty, "presence_penalty", v.presence_penalty, "tools", v.tools, "tool_choice", v.tool_choice, "response_format", v.response_format)
JT(Ck::ToolCallDelta::Function, "name", v.name, "arguments", v.arguments)
JT(Ck::ToolCallDelta, "index", v.index, "id", v.id, "type", v.type, "function", v.function)
JT(Ck::Delta, "role", v.role, "content", v.content, "tool_calls", v.tool_calls)
JT(Ck::Choice, "index", v.index, "delta", v.delta, "finish_reason", v.finish_reason)
JT(Ck, "id", v.id, "object", v.object, "created", v.created, "model", v.model, "choices", v.choices)
static M message(R& r) { M m; m.role = r.pick({"system", "user", "assistant", "tool"}); if (r.chance(0.6)) m.content = r.chance(0.05) ? r.text(20000 + r.below(60000)) : rstr(r); else { std::vector<M::ContentPart> ps; for (auto n = r.below(4); n--;) { if (r.chance(0.5)) ps.push_back(M::ContentPartText{rstr(r)}); else ps.push_back(M::ContentPartImage{{"data:" + rstr(r), r.pick({"auto", "low", "high"})}}); } m.content = std::move(ps); }
    if (r.chance(0.2)) m.name = rstr(r); if (r.chance(0.2)) { m.tool_calls.emplace(); for (auto n = r.below(3); n--;) m.tool_calls->push_back({rstr(r), {rstr(r), "{\"a\":" + std::to_string(r.below(99)) + "}"}}); } if (r.chance(0.2)) m.tool_call_id = rstr(r); return m; }
static Rq ask(R& r) { Rq q; q.model = rstr(r); for (auto n = r.below(5); n--;) q.messages.push_back(message(r)); q.stream = r.chance(0.5); auto f = [&](std::optional<double>& o) { if (r.chance(0.4)) o = rflt<double>(r); }; f(q.temperature); f(q.top_p); f(q.frequency_penalty); f(q.presence_penalty); if (r.chance(0.4)) q.max_tokens = rint<std::uint64_t>(r);
    if (r.chance(0.4)) { q.tools.emplace(); for (auto n = r.below(3); n--;) q.tools->push_back({{rstr(r), rstr(r), "{}"}}); } if (r.chance(0.4)) { if (r.chance(0.5)) q.tool_choice = std::string(r.pick({"auto", "none"})); else q.tool_choice = ai::ToolChoiceFunction{rstr(r)}; } if (r.chance(0.3)) q.response_format = ai::ResponseFormat{r.pick({"text", "json_object"})}; return q; }
static std::optional<std::string> os(R& r) { if (r.chance(0.4)) return {}; return rstr(r); }
static Ck chunk(R& r, int i) { Ck c; c.id = "c" + std::to_string(i); c.object = "chat.completion.chunk"; c.created = rint<std::uint64_t>(r); c.model = rstr(r); for (auto n = r.chance(0.8) ? 1 : r.below(4); n--;) { Ck::Choice h; h.index = (std::size_t)r.below(5); h.delta.role = os(r); h.delta.content = r.chance(0.03) ? r.text(9000) : os(r); h.finish_reason = os(r);
        if (r.chance(0.3)) { h.delta.tool_calls.emplace(); for (auto k = r.below(3); k--;) { Ck::ToolCallDelta t; t.index = (std::size_t)r.below(9); t.id = os(r); t.type = os(r); if (r.chance(0.6)) t.function = Ck::ToolCallDelta::Function{os(r), os(r)}; h.delta.tool_calls->push_back(std::move(t)); } } c.choices.push_back(std::move(h)); }
    if (r.chance(0.4)) { if (r.chance(0.4)) c.id.clear(); if (r.chance(0.4)) c.object.clear(); if (r.chance(0.4)) c.created = 0; if (r.chance(0.4)) c.model.clear(); if (r.chance(0.3)) c.choices.clear(); } return c; }
}
// servers leave out members that have their default value
static Dom sparse(Dom d, Dom const& def, vf::Rng& r) { std::vector<dom::Member> o; for (auto& m : d.o) { bool same = false; for (auto& x : def.o) same |= x.first == m.first && dom::eq(x.second, m.second); if (!same || r.chance(0.3)) o.push_back(std::move(m)); } d.o = std::move(o); return d; }
// members that are null may as well be left out
static Dom strip(Dom d) { std::vector<dom::Member> o; for (auto& m : d.o) if (m.second.k != Dom::Null) o.emplace_back(m.first, strip(m.second)); d.o = std::move(o); for (auto& x : d.a) x = strip(x); return d; }
static std::string oneLine(Dom const& d, vf::Rng& r) { std::string t; dom::write(d, t, r.chance(0.5) ? &r : nullptr); return t; }
// the text of an event: a line end inside the document starts another data line
static std::string event(std::string const& t, std::string const& nl) { std::string s = "data: "; for (char c : t) { if (c == '\n' || c == '\r') s += nl + "data: "; else s += c; } return s + nl + nl; }
struct Turn { jt::Rq rq; bool stream = false; std::string rsp, body; int status = 200; std::vector<Dom> chunks; bool fail = false, done = true, cut = false; int throwAt = -1; std::vector<std::size_t> cs; };
static Turn turn(vf::Rng& r, bool faults) { Turn t; t.rq = jt::ask(r); t.stream = r.chance(0.7); std::string nl = r.chance(0.6) ? "\n" : "\r\n";
    if (!t.stream) { auto p = rsp(r, false, false, 20000); t.rsp = p.bytes; t.status = p.status; t.body = p.body; t.cs = cuts(r, t.rsp); return t; }
    std::string s; std::vector<std::size_t> ends; int n = (int)r.below(15), bad = -1, kind = faults ? (int)r.below(6) : -1; if (kind == 0) bad = (int)r.below((std::uint64_t)n + 1); if (kind == 1) t.done = false; if (kind == 5 && n) t.throwAt = (int)r.below((std::uint64_t)n);
    for (int i = 0; i <= n; ++i) { if (r.chance(0.1)) s += ": keep-alive" + nl + nl; if (i == bad) { s += "data: " + std::string(r.pick({"{\"id\":\"x\",\"choices\":[", "{\"id\":5}", "[DONE", "nope", "{\"choices\":[{\"delta\":{\"content\":\"a\"}}"})) + nl + nl; t.fail = true; break; } if (i == n) break; auto c = jt::chunk(r, i); auto d = strip(jt::td(c)); t.chunks.push_back(d); auto w = r.chance(0.5) ? jt::td(c) : d; if (r.chance(0.5)) { static const Dom empty = jt::td(jt::Ck{}); w = sparse(w, empty, r); } s += event(oneLine(w, r), nl); ends.push_back(s.size()); if (t.throwAt == i) t.fail = true; }
    if (t.done) { s += "data: [DONE]" + nl + nl; ends.push_back(s.size()); } else t.fail = true;
    if (kind == 2) { t.status = (int)r.pick({401, 429, 500, 404}); std::string b = "{\"error\":{\"message\":\"no\"}}"; t.rsp = "HTTP/1.1 " + S(t.status) + " X\r\nContent-Type: " + (r.chance(0.5) ? "application/json" : "text/event-stream") + "\r\nContent-Length: " + S((long)b.size()) + "\r\n\r\n" + b; t.chunks.clear(); t.fail = true; }
    else { t.rsp = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream; charset=utf-8\r\n"; bool ck = kind != 3 && r.chance(0.7); if (ck) t.rsp += "Transfer-Encoding: chunked\r\n\r\n" + chunked(r, s); else t.rsp += "\r\n" + s; if (!ck) t.cut = true;
        if (kind == 3) { std::size_t at = r.below(s.size() + 1); for (auto e : ends) if (nl.size() == 2 && at + 1 == e) ++at; std::size_t k = 0; while (k < t.chunks.size() && ends[k] <= at) ++k; bool whole = at >= s.size() && t.done; t.rsp.resize(t.rsp.size() - (s.size() - at)); t.chunks.resize(k); t.done = whole; t.fail = !whole; } }
    t.cs = cuts(r, t.rsp); return t; }
static void conversation(vf::Rng& r, bool faults) { auto q = std::make_shared<std::vector<Turn>>(); int n = (int)r.range(1, 5); for (int i = 0; i < n; ++i) q->push_back(turn(r, faults && r.chance(0.6))); std::string key = r.pick({"sk-abc", "", "k e:y;=/+", "x"}) + (r.chance(0.5) ? r.text(r.below(30)) : ""); while (!key.empty() && key.back() == ' ') key.pop_back(); bool shared = r.chance(0.5); std::string base = r.pick({"", "/v1", "/a/b%20c"});
    vf::setCase(S(n) + " turns, shared loop " + S(shared)); std::atomic_int at{0}; std::atomic_int sent{0}; vf::sig(vf::mix((std::uint64_t)n + r.next()));
    RawServer A([&](Peer& p, int) { Feeder f(p); for (;;) { std::string err; auto rq = request(p, err, 30); if (!rq) { vf::check(err == "closed", "request-malformed", err); return; } int i = at; if (i >= n) { vf::fail("extra-request", "a request more than was made: " + vf::esc(rq->body, 200)); return; } auto& t = (*q)[(std::size_t)i]; ++sent;
        vf::check(rq->method == "POST" && rq->target == base + "/chat/completions", "request-line", rq->method + " " + rq->target); auto* a = rq->get("authorization"); vf::check(a && rq->count("authorization") == 1 && (*a == "Bearer " + key || (key.empty() && *a == "Bearer")), "authorization", a ? *a : "none"); auto* c = rq->get("content-type"); vf::check(c && c->find("application/json") == 0, "content-type", c ? *c : "none");
        if (t.stream) { auto* ac = rq->get("accept"); vf::check(ac && ac->find("text/event-stream") != ac->npos, "accept", ac ? *ac : "none"); }
        auto want = t.rq; want.stream = t.stream; try { auto g = strip(dom::parse(rq->body)), w = strip(jt::td(want)); vf::check(dom::eq(g, w), "request-content", [&] { return "sent " + vf::esc(dom::str(g), 600) + " for " + vf::esc(dom::str(w), 600); }); } catch (dom::Err& e) { vf::fail("request-invalid", std::string(e.what()) + " in " + vf::esc(rq->body, 600)); }
        f.feed(t.rsp, t.cs); if (t.cut) { f.drained(2); return; } } });
    auto loop = shared ? std::make_shared<co::EventLoop>() : nullptr;
    { vf::Watch w("hang|the conversation does not end", 60); ai::OpenAiClient<HttpClient> cli{{.baseUrl = "http://" + A.hostPort() + base, .apiKey = key}, loop};
      auto one = [&](Turn& t) -> TK { std::vector<Dom> got; bool threw = false; auto res = co_await cli.coChat(t.rq, [&](ai::ChatCompletionChunk c) -> TK { got.push_back(strip(jt::td(c))); if ((int)got.size() - 1 == t.throwAt) { threw = true; throw std::runtime_error{"boom"}; } co_return; }); auto want = t.chunks; if (t.throwAt >= 0) want.resize((std::size_t)t.throwAt + 1);
        vf::eval(want.size() + 1); for (std::size_t i = 0; i < got.size() && i < want.size(); ++i) if (!vf::check(dom::eq(got[i], want[i]), "chunk-altered", [&] { return "chunk " + S((long)i) + " arrived as " + vf::esc(dom::str(got[i]), 400) + ", sent " + vf::esc(dom::str(want[i]), 400); })) break;
        vf::check(got.size() == want.size(), "chunk-count", [&] { return S((long)got.size()) + " chunks delivered, " + S((long)want.size()) + " sent; response " + vf::esc(t.rsp, 700); }); vf::check((bool)res == !t.fail, "outcome", [&] { return std::string(t.fail ? "a failed stream is reported as complete" : "a complete stream is reported as failed: ") + (res ? "" : res.what()) + " response " + vf::esc(t.rsp, 500); }); if (threw && !res) vf::check(res.what() == "boom", "outcome", "the consumer's exception became " + res.what()); vf::note(t.fail ? "streams broken" : "streams complete"); vf::note("chunks", got.size()); };
      auto whole = [&](Turn& t, ResponseData* d) { vf::eval(); if (!d) return; vf::check(d->status == t.status && d->body == t.body, "answer", [&] { return "status " + S(d->status) + " body " + vf::esc(d->body, 200) + " instead of " + S(t.status) + " " + vf::esc(t.body, 200); }); vf::note("whole answers"); };
      if (shared) { auto all = [&]() -> TK { for (auto& t : *q) { if (!t.stream) { t.stream = true; t.rsp = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nTransfer-Encoding: chunked\r\n\r\n" + chunked(r, "data: [DONE]\n\n"); t.cs = cuts(r, t.rsp); t.chunks.clear(); } co_await one(t); ++at; } }; auto res = loop->trySync(all()); vf::check((bool)res, "loop", res ? "" : res.what()); }
      else for (auto& t : *q) { if (t.stream) one(t).runSync(); else { auto o = cli.chat(t.rq).get(); if (!o) vf::fail("answer", "no answer: " + o.what()); else { auto d = o.move(); whole(t, &d); } } ++at; } }
    vf::check(sent == n, "request-count", S(sent) + " requests for " + S(n) + " turns"); }
VF_SECTION("chat", 250, 5000) { conversation(rng, false); }
VF_SECTION("faults", 250, 5000) { conversation(rng, true); }
