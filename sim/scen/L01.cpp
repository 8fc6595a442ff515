// Messages: several callers print at once, on any terminal, to a stream which may fail.
#include "debug.hpp"
#include "simrt.hpp"
#include <memory>
#include <new>
namespace {
// what was printed; every piece handed to it is a point at which another thread may run
struct Sink : std::streambuf {
  std::string got; bool yields{false}; int64_t fail_at{-1}, pieces{0}; bool throws{false};
  void piece() { if (fail_at >= 0 && pieces++ >= fail_at) { sim::fault_fired(throws ? "stream_throws" : "stream_fails"); if (throws) throw std::runtime_error("stream"); failed = true; } }
  bool failed{false};
  std::streamsize xsputn(const char* s, std::streamsize n) override { piece(); if (failed) return 0; size_t k = static_cast<size_t>(n) / 2; got.append(s, k); if (yields) sim::yield_point(); got.append(s + k, static_cast<size_t>(n) - k); if (yields) sim::yield_point(); return n; }
  int overflow(int c) override { piece(); if (failed) return EOF; if (c != EOF) { if (yields) sim::yield_point(); got.push_back(static_cast<char>(c)); } return c == EOF ? 0 : c; }
};
struct Redirect { std::streambuf* old; std::ios_base::iostate ex; explicit Redirect(std::streambuf* b) : old(std::cout.rdbuf(b)), ex(std::cout.exceptions()) {} ~Redirect() { std::cout.exceptions(std::ios_base::goodbit); std::cout.clear(); std::cout.rdbuf(old); std::cout.exceptions(ex); } };
// a message: a function, a marked text and, maybe, a list
struct Message {
  int func{0}, kind{0}; std::string mark; std::vector<double> d; std::vector<int> i; std::vector<std::vector<double>> dd; std::vector<std::array<int, 3>> a; std::array<double, 4> f{}; double x{0};
  void print(brille::DebugPrinter& p) const {
    const std::string fn = func ? "function " + std::to_string(func) : "";
    switch (kind) {
      case 1: p.println(fn, mark, x, " end"); break;
      case 2: p.println(fn, mark, d); break;
      case 3: p.println(fn, mark, i, " end"); break;
      case 4: p.println(fn, mark, dd); break;
      case 5: p.println(fn, mark, a); break;
      case 6: p.println(fn, mark, f, " and ", i); break;
      case 7: p.println(fn, mark, std::make_pair(3, 4)); break;
      default: p.println(fn, mark);
    }
  }
  // every number of its lists, in order
  std::vector<double> numbers() const {
    std::vector<double> o; auto ints = [&] { for (int k : i) o.push_back(k); };
    switch (kind) { case 1: o.push_back(x); break; case 2: o = d; break; case 3: ints(); break; case 4: for (auto& r : dd) o.insert(o.end(), r.begin(), r.end()); break; case 5: for (auto& r : a) o.insert(o.end(), r.begin(), r.end()); break; case 6: o.assign(f.begin(), f.end()); ints(); break; default: break; }
    return o;
  }
};
Message draw_message(const std::string& mark) {
  Message m; m.mark = mark; m.func = static_cast<int>(sim::draw("function", 4)); m.kind = static_cast<int>(sim::draw("message", 8)); sim::Rng r(sim::draw_seed("numbers")); size_t n = sim::draw("elements", 24);
  double scale = std::array<double, 4>{1, 1000, 1e-3, 1e7}[sim::draw("scale", 4)]; auto num = [&] { return std::round((2 * r.uni() - 1) * 4096) / 4096 * scale; }; // also as a decimal with few digits
  for (size_t k = 0; k < n; ++k) { m.d.push_back(num()); m.i.push_back(static_cast<int>(r.below(2000)) - 1000); m.a.push_back({static_cast<int>(r.below(100)) - 50, static_cast<int>(k), -7}); }
  for (size_t k = 0; k < n / 3; ++k) { m.dd.emplace_back(); for (size_t j = 0, c = r.below(6); j < c; ++j) m.dd.back().push_back(num()); }
  for (auto& v : m.f) v = num();
  m.x = num(); return m;
}
std::vector<double> parse(const std::string& s) { // the numbers of a text, whatever separates them: "-   3.5" never occurs with padding between sign and digits as the widths come from the texts
  std::vector<double> o; for (size_t k = 0; k < s.size();) { if (std::isdigit(static_cast<unsigned char>(s[k]))) { size_t b = k; bool neg = false; while (b > 0 && s[b - 1] == ' ') --b; if (b > 0 && s[b - 1] == '-') neg = true; char* e; double v = std::strtod(s.c_str() + k, &e); o.push_back(neg ? -v : v); k = static_cast<size_t>(e - s.c_str()); } else ++k; }
  return o;
}
// what a printer of its own prints, whose last message came from the given function
std::string alone(const Message& m, const std::string& last, bool stamps) { Sink s; Redirect r(&s); brille::DebugPrinter p(last); p.datetime(stamps); m.print(p); return s.got; }
std::string fname(const Message& m) { return m.func ? "function " + std::to_string(m.func) : ""; }
void terminal() { auto& e = sim::env(); static const int C[] = {0, 1, 2, 7, 20, 40, 80, 200, 65535}; e.cols = C[sim::draw("columns", 9)]; e.rows = C[sim::draw("rows", 9)]; e.ioctl_fails = sim::coin("no_terminal", 0.2); }
void sizes() {
  auto& e = sim::env(); int w = brille::terminal_width(), h = brille::terminal_height();
  if (e.ioctl_fails || !e.cols) SIM_CHECK(w >= 1 << 15, "wrong-size", "width is " + std::to_string(w) + " without a terminal"); else SIM_CHECK(w == e.cols, "wrong-size", "width of a terminal of " + std::to_string(e.cols) + " columns is " + std::to_string(w));
  if (e.ioctl_fails || !e.rows) SIM_CHECK(h >= 1 << 15, "wrong-size", "height is " + std::to_string(h) + " without a terminal"); else SIM_CHECK(h == e.rows, "wrong-size", "height of a terminal of " + std::to_string(e.rows) + " rows is " + std::to_string(h));
}
void content(const Message& m, const std::string& text) {
  size_t at = text.find(m.mark); SIM_CHECK(at != std::string::npos, "lost", "a message was printed without its text: " + text);
  auto want = m.numbers(), have = parse(text.substr(at + m.mark.size())); if (m.kind == 7) return;
  bool same = want.size() == have.size(); for (size_t k = 0; same && k < want.size(); ++k) same = std::abs(want[k] - have[k]) <= 1e-12 * (1 + std::abs(want[k]));
  SIM_CHECK(same, "lost", "a message with " + std::to_string(want.size()) + " numbers was printed as " + text.substr(0, 2000));
}
void together() {
  sim::Quiet quiet; terminal(); auto& e = sim::env(); e.tick_ns = 0; e.jump_every = 0; // time stands still: the texts are known
  e.now_ns = static_cast<int64_t>(sim::draw("days", 60000)) * 86400000000000ll + static_cast<int64_t>(sim::draw("ms_of_day", 86400000)) * 1000000ll;
  sizes();
  size_t callers = 1 + sim::draw("callers", 4); bool stamps = sim::coin("time_stamps", 0.4), silent = sim::coin("silenced", 0.08);
  std::vector<std::vector<Message>> todo(callers); for (size_t c = 0; c < callers; ++c) for (size_t k = 0, n = 1 + sim::draw("messages", 5); k < n; ++k) todo[c].push_back(draw_message("caller " + std::string(1, static_cast<char>('A' + c)) + std::string(k + 1, '+') + ":"));
  Sink sink; sink.yields = true; auto printer = std::make_unique<brille::DebugPrinter>(""); printer->datetime(stamps); printer->silenced(silent); brille::DebugPrinter& p = sim::coin("global", 0.5) ? brille::printer : *printer;
  if (&p != printer.get()) { Sink s; Redirect r(&s); p.println("", "reset"); p.datetime(stamps); p.silenced(silent); }
  struct Back { ~Back() { brille::printer.datetime(false); brille::printer.silenced(false); } } back;
  { Redirect r(&sink); std::vector<std::function<void()>> bodies; for (size_t c = 0; c < callers; ++c) bodies.push_back([&, c] { for (auto& m : todo[c]) m.print(p); }); sim::Loud loud; sim::Phase ph("println"); if (callers > 1) sim::run_threads(bodies); else bodies[0](); }
  if (callers > 1) sim::nontrivial();
  sim::mix_hash(sink.got.data(), sink.got.size());
  if (silent) { SIM_CHECK(sink.got.empty(), "not-silent", "a silenced printer printed " + sink.got); sim::probe("silent"); return; }
  // the output is the messages, whole, one after another, in the order of each caller
  std::vector<size_t> next(callers, 0); std::string last; size_t at = 0;
  while (at < sink.got.size()) {
    bool found = false;
    for (size_t c = 0; c < callers && !found; ++c) if (next[c] < todo[c].size()) {
      auto& m = todo[c][next[c]]; auto text = alone(m, last, stamps);
      if (sink.got.compare(at, text.size(), text) == 0) { content(m, text); if (stamps) { // the time stamp is the time
          time_t t = static_cast<time_t>(e.now_ns / 1000000000); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", localtime(&t)); char ms[16]; snprintf(ms, sizeof ms, ":%03d] ", static_cast<int>(e.now_ns / 1000000 % 1000)); SIM_CHECK(text.find("[" + std::string(b) + ms + m.mark) != std::string::npos, "wrong-time", "a message at [" + std::string(b) + ms + "was printed as " + text); sim::probe("stamped"); }
        if (fname(m) != last) SIM_CHECK(text.find(fname(m)) != std::string::npos, "lost", "a message of " + fname(m) + " was printed without a header");
        last = fname(m); at += text.size(); ++next[c]; found = true; }
    }
    SIM_CHECK(found, "mixed", "the output is not a sequence of whole messages from byte " + std::to_string(at) + ": " + sink.got.substr(at, 600));
  }
  for (size_t c = 0; c < callers; ++c) SIM_CHECK(next[c] == todo[c].size(), "lost", "message " + std::to_string(next[c]) + " of caller " + std::to_string(c) + " was never printed");
}
void faulty() {
  sim::Quiet quiet; terminal(); auto& e = sim::env(); e.tick_ns = 0; e.jump_every = 0; bool stamps = sim::coin("time_stamps", 0.6);
  auto p = std::make_unique<brille::DebugPrinter>(""); p->datetime(stamps);
  for (uint64_t k = 0, n = 1 + sim::draw("failures", 3); k < n; ++k) {
    Message m = draw_message("failing:"); Sink sink; Redirect r(&sink); int how = static_cast<int>(sim::draw("fault", 3)); sink.throws = sim::coin("throws", 0.5);
    if (how != 2) { sink.fail_at = static_cast<int64_t>(sim::draw("piece", 8)); if (how == 1) std::cout.exceptions(std::ios_base::badbit | std::ios_base::failbit); }
    try { sim::Loud loud; sim::Phase ph("failing println"); if (how == 2) sim::arm_alloc_fault(1 + sim::draw("allocation", 40), sim::coin("lasting", 0.3) ? 1000 : 1); m.print(*p); }
    catch (std::exception&) { sim::probe("print_threw"); }
    if (sim::disarm_alloc_fault()) { sim::fault_fired("alloc_failure"); sim::nontrivial(); }
    if (sink.failed || (sink.throws && sink.pieces > sink.fail_at && sink.fail_at >= 0)) sim::nontrivial();
  }
  // healthy again: from this and from other threads
  Message m = draw_message("later:"), o = draw_message("other:"); Sink sink; Redirect r(&sink); m.func = 9;
  auto bodies = std::vector<std::function<void()>>{[&] { m.print(*p); }, [&] { sim::yield_point(); }}; { sim::Loud loud; sim::Phase ph("println after a failure"); sim::run_threads(bodies); o.print(*p); }
  auto w1 = alone(m, "", stamps), w2 = alone(o, fname(m), stamps);
  SIM_CHECK(sink.got == w1 + w2, "harmed", "after a failure messages are printed as " + sink.got + " instead of " + w1 + w2); content(m, w1); content(o, w2);
  sim::mix_hash(sink.got.data(), sink.got.size());
}
sim::Reg a("L01", "together", together, 2);
sim::Reg b("L01", "faulty", faulty, 1);
}
