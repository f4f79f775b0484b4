// C28: the test runner.
#include "common.h"
#include "Awl/Testing/TestConsole.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/CommandLineProvider.h"
#include "Awl/Testing/TestException.h"
#include "Awl/StopWatch.h"
#include "Awl/Sleep.h"
#include "Awl/StdConsole.h"
#include <algorithm>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <thread>

using namespace sim;

namespace
{
    constexpr int64_t Slack = 4'000'000; // what steps of the simulator take, ns
    constexpr int64_t Ms = 1'000'000;
    enum Out { All, Failed, Null };
    enum Act { Pass, FailAssert, FailFalse, FailAlways, FailEqual, FailThrows, SwallowThrows, WrongThrows, ActCount };
    struct Behaviour { int act = Pass; int failAt = 0; int64_t sleep = 0; bool obeys = false; int lines = 1; };

    struct Plan
    {
        std::vector<const char*> names;          // of the registered tests
        std::vector<Behaviour> beh;
        std::vector<std::pair<int, int>> ran;    // test, iteration
        std::vector<int> count;
        std::vector<int> expected;               // tests to run, in order
        int loops = 1;
        int64_t timeout = -1;                    // ns
        int out = Failed;
        bool slow = false, strictTime = true;
        int passed = 0;
        bool failed = false;
        int failedTest = -1, failedIter = 0;
        std::vector<std::string> marks;          // everything the tests wrote
        std::vector<std::string> failedMarks;
        int minTimeouts = 0, maxTimeouts = 0;
        std::stop_source* outer = nullptr;

        bool escaped = false;

        // Attributes of the tests: the text given on the command line, if any.
        std::optional<std::string> number, real, text, list; bool flag = false;
    };
    Plan* plan;

    struct Foreign { int n; };                   // thrown by a test, not a TestException

    void readAttributes(const awl::testing::TestContext& context)
    {
        Plan& p = *plan;
        AWT_ATTRIBUTE(int, number, -7);
        AWT_ATTRIBUTE(double, real, 0.5);
        AWT_ATTRIBUTE(awl::String, text, "default text");
        AWT_ATTRIBUTE(std::vector<awl::String>, items, (std::vector<awl::String>{ "one" }));
        AWT_FLAG(flag);
        SIM_CHECK(number == (!p.number || *p.number == "many" ? -7 : atoi(p.number->c_str())), "attribute", "an attribute is %d, given is %s", number, p.number ? p.number->c_str() : "nothing");
        SIM_CHECK(real == (p.real ? atof(p.real->c_str()) : 0.5), "attribute", "an attribute is %f, given is %s", real, p.real ? p.real->c_str() : "nothing");
        SIM_CHECK(text == (p.text ? *p.text : "default text"), "attribute", "an attribute is '%s'", text.c_str());
        std::vector<awl::String> want{ "one" };
        if (p.list) { want.clear(); std::istringstream in(*p.list); awl::String x; while (in >> x) want.push_back(x); }
        SIM_CHECK(items == want, "attribute", "a list attribute has %zu elements and not %zu, or other ones", items.size(), want.size());
        SIM_CHECK(flag == p.flag, "attribute", "a flag is %d", int(flag));
        probe("attributes read");
    }

    void body(int id, const awl::testing::TestContext& context)
    {
        Plan& p = *plan;
        SIM_CHECK(!p.failed, "after-failure", "test %s runs after a test failed", p.names[size_t(id)]);
        int iter = p.count[size_t(id)]++;
        size_t n = p.ran.size();
        p.ran.emplace_back(id, iter);
        SIM_CHECK(n < p.expected.size() * size_t(p.loops), "too-many", "test %s is run as number %zu", p.names[size_t(id)], n);
        SIM_CHECK(p.expected[n / size_t(p.loops)] == id && iter == int(n % size_t(p.loops)), "order", "test %s, iteration %d, is run as number %zu", p.names[size_t(id)], iter, n);
        ev("test", id, iter);
        const Behaviour& b = p.beh[size_t(id)];
        auto& out = context.out;
        std::vector<std::string> mine;
        for (int i = 0; i < b.lines; ++i)
        {
            std::string m = "<" + std::to_string(id) + "." + std::to_string(iter) + "." + std::to_string(i) + ">";
            out << m;
            if (i % 2) out << std::endl;
            p.marks.push_back(m); mine.push_back(m);
            SIM_CHECK(out.good(), "output", "the output of a test failed");
        }
        if (W(3) == 0) readAttributes(context);
        const std::stop_token token = context.stopToken;
        bool before = token.stop_requested();
        int64_t t0 = int64_t(now_ns());
        awl::StopWatch watch;
        const int64_t w0 = int64_t(now_ns());
        if (b.sleep)
        {
            if (b.obeys) awl::sleep_for(std::chrono::nanoseconds(b.sleep), token);
            else std::this_thread::sleep_for(std::chrono::nanoseconds(b.sleep));
        }
        else for (uint32_t i = W(4); i; --i) yield("test");
        {
            int64_t a = int64_t(now_ns()) - w0;
            int64_t e = watch.GetElapsedTime().count();
            int64_t c = int64_t(now_ns()) - t0;
            SIM_CHECK(e >= a && e <= c, "stop-watch", "the stop watch shows %lld ns, it is between %lld and %lld ns", (long long)e, (long long)a, (long long)c);
            SIM_CHECK(watch.HasElapsed(std::chrono::nanoseconds(a)), "stop-watch", "%lld ns have elapsed, the stop watch denies it", (long long)a);
        }
        bool stopped = token.stop_requested();
        int64_t d = int64_t(now_ns()) - t0;
        bool outerStopped = p.outer && cell(30);
        if (outerStopped && before) probe("started after the stop request");
        // A token may be stopped by the timeout or from the outside only.
        if (p.timeout < 0)
        {
            if (!p.outer) SIM_CHECK(!stopped, "stopped", "there is no timeout, the test is asked to stop");
            if (outerStopped) SIM_CHECK(stopped, "not-stopped", "a stop was requested, the test is not asked to stop");
        }
        else
        {
            bool outerAny = p.outer && p.outer->stop_requested();
            if (!outerAny)
            {
                if (!p.slow && d > p.timeout + Slack) SIM_CHECK(stopped, "not-stopped", "the timeout of %lld ns has elapsed, the test is not asked to stop after %lld ns", (long long)p.timeout, (long long)d);
                if (!p.slow && d < p.timeout - Slack) SIM_CHECK(!stopped, "stopped", "the timeout of %lld ns has not elapsed, the test is asked to stop after %lld ns", (long long)p.timeout, (long long)d);
                if (stopped) { ++p.minTimeouts; probe("a test is asked to stop by the timeout"); }
            }
            if (outerStopped) SIM_CHECK(stopped, "not-stopped", "a stop was requested, the test is not asked to stop");
            if (p.slow || outerAny || d >= p.timeout - Slack) ++p.maxTimeouts;
            if (b.obeys && !outerAny && !p.slow) SIM_CHECK(d <= std::min(b.sleep, p.timeout) + Slack, "late", "a sleep of %lld ns with a timeout of %lld ns takes %lld ns", (long long)b.sleep, (long long)p.timeout, (long long)d);
        }
        if (outerStopped && stopped && !before) probe("a test is asked to stop from outside");
        if (b.act != Pass && iter == b.failAt)
        {
            count_fault(K_THROW);
            p.failed = true; p.failedTest = id; p.failedIter = iter; p.failedMarks = mine;
            switch (b.act)
            {
            case FailAssert: AWT_ASSERT(iter == -1); break;
            case FailFalse: AWT_ASSERT_FALSE(iter >= 0); break;
            case FailAlways: if (iter % 2) AWT_FAIL; else AWT_FAILM(always); break;
            case FailEqual: AWT_ASSERT_EQUAL(iter, iter + 1); break;
            case FailThrows: awl::testing::Assert::Throws<std::logic_error>([] {}); break;
            case SwallowThrows: awl::testing::Assert::Throws<awl::testing::TestException>([] {}); break;
            case WrongThrows: p.escaped = true; awl::testing::Assert::Throws<std::logic_error>([] { throw Foreign{ 5 }; }); break;
            }
            fail("not-failed", "a failed assertion of kind %d does not end the test", b.act);
        }
        if (W(4) == 0)
        {
            awl::testing::Assert::Throws<std::logic_error>([] { throw std::out_of_range("x"); });
            awl::testing::Assert::Throws<awl::testing::TestException>([] { AWT_FAILM(expected); });
            AWT_ASSERT(iter >= 0); AWT_ASSERT_FALSE(iter < 0); AWT_ASSERT_EQUAL(iter, iter);
        }
        ++p.passed;
    }
    template <int I> void fn(const awl::testing::TestContext& c) { body(I, c); }
    using Fn = awl::testing::TestFunc;
    const Fn Fns[] = { fn<0>, fn<1>, fn<2>, fn<3>, fn<4>, fn<5>, fn<6> };
    const char* const Names[] = { "Alpha_Test", "Beta_Test", "Alphabet_Test", "Gamma_Benchmark", "Delta_Test_Unstable", "alpha_Test", "Alpha_Example" };
    const char* const Suffix[] = { "_Test", "_Benchmark", "_Example", "_Test_Unstable" };

    size_t countOf(const std::string& s, const std::string& what)
    {
        size_t n = 0;
        for (size_t i = s.find(what); i != std::string::npos; i = s.find(what, i + what.size())) ++n;
        return n;
    }
    bool endsWith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

    // Standard output. Several threads may write to it at once, so its buffer is not watched by the race detector.
    char consoleData[1 << 17]; size_t consoleSize;
    struct Console : std::streambuf
    {
        std::streambuf* old;
        Console() { consoleSize = 0; old = std::cout.rdbuf(this); }
        ~Console() { std::cout.rdbuf(old); std::cout.clear(); }
        __attribute__((no_sanitize_thread)) static void put(const char* s, size_t n) { for (size_t i = 0; i < n && consoleSize < sizeof consoleData; ++i) consoleData[consoleSize++] = s[i]; }
        std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, size_t(n)); return n; }
        int_type overflow(int_type c) override { if (c != traits_type::eof()) { char x = char(c); put(&x, 1); } return traits_type::not_eof(c); }
        std::string text() const { return std::string(consoleData, consoleSize); }
    };
}

// ---------------------------------------------------------------- C28
SIM_SCENARIO(test_runner)
{
    using namespace awl::testing;
    swarm_sched();
    cfg().p_alloc = 0;
    cfg().p_thread = 0;
    Plan p; plan = &p;
    cell(30) = 0;                                    // the stop request from outside is complete
    p.slow = W(3) == 0;
    if (!p.slow) cfg().p_clock = 0;
    uint32_t n = 1 + W(7);
    std::vector<int> order;
    for (int i = 0; i < 7; ++i) order.push_back(i);
    for (size_t i = 7; i > 1; --i) std::swap(order[i - 1], order[W(uint32_t(i))]);
    order.resize(n);
    for (uint32_t i = 0; i < n; ++i) p.names.push_back(Names[order[i]]);
    bool duplicate = n > 1 && W(12) == 0;
    if (duplicate) p.names[n - 1] = p.names[W(n - 1)];
    bool anyFail = W(2);
    uint32_t rawLoop = W(3) == 0 ? W(4) : 0; // 0: the attribute is absent or zero
    p.loops = rawLoop ? int(rawLoop) : 1;
    static const int64_t Times[] = { 0, 10, 50, 100, 700 };
    for (uint32_t i = 0; i < n; ++i)
    {
        Behaviour b;
        if (anyFail && W(4) == 0) { b.act = 1 + int(W(ActCount - 1)); b.failAt = int(W(uint32_t(p.loops))); }
        b.sleep = W(2) ? Times[W(5)] * Ms : 0;
        b.obeys = W(2);
        b.lines = int(W(4));
        p.beh.push_back(b);
    }
    p.count.assign(n, 0);
    if (W(2)) p.timeout = Times[W(5)] * Ms;
    p.out = int(W(3));
    bool mapMode = W(3) == 0;
    std::string text;
    Console console;
    std::vector<std::unique_ptr<TestLink>> links;
    for (uint32_t i = 0; i < n; ++i) links.push_back(std::make_unique<TestLink>(p.names[i], Fns[i]));

    std::vector<std::string> args{ "prog" };
    auto shuffled = std::vector<std::vector<std::string>>{};
    if (rawLoop || W(4) == 0) shuffled.push_back({ "--loop", std::to_string(rawLoop) });
    else if (W(12) == 0) { shuffled.push_back({ "--loop", "often" }); probe("a value that is not a number"); }
    if (p.timeout >= 0) shuffled.push_back({ "--timeout", std::to_string(p.timeout / Ms) });
    else if (W(6) == 0) shuffled.push_back({ "--timeout", "-1" });
    bool badOutput = W(15) == 0;
    if (badOutput) shuffled.push_back({ "--output", "everything" });
    else if (p.out != Failed || W(2)) shuffled.push_back({ "--output", p.out == All ? "all" : p.out == Failed ? "failed" : "null" });
    bool unused = W(6) == 0;
    if (unused) shuffled.push_back({ "--nonsense" });
    if (W(5) == 0) { static const char* const v[] = { "0", "42", "-100", "many", "2147483647" }; p.number = v[W(5)]; shuffled.push_back({ "--number", *p.number }); }
    if (W(5) == 0) { static const char* const v[] = { "0.25", "-3", "1e9" }; p.real = v[W(3)]; shuffled.push_back({ "--real", *p.real }); }
    if (W(5) == 0) { static const char* const v[] = { "", "a text", "-x", "--" }; p.text = v[W(4)]; shuffled.push_back({ "--text", *p.text }); }
    if (W(5) == 0) { static const char* const v[] = { "", "a", "a b  c", "b a b" }; p.list = v[W(4)]; shuffled.push_back({ "--items", *p.list }); }
    if (W(5) == 0) { p.flag = true; shuffled.push_back({ "--flag" }); }
    bool list = !mapMode && W(8) == 0;
    if (list) shuffled.push_back({ "--list" });

    // Which tests are selected.
    std::vector<int> selected;
    bool byRun = !mapMode && !list && W(4) == 0, missing = false, badRegex = false;
    if (byRun)
    {
        std::vector<std::string> v; std::string s;
        for (uint32_t i = 0; i < n; ++i) if (W(2)) { v.push_back(p.names[i]); selected.push_back(int(i)); if (W(5) == 0) v.push_back(p.names[i]); }
        if (v.empty()) { v.push_back(p.names[0]); selected.push_back(0); }
        missing = W(6) == 0;
        if (missing) v.push_back("Beta_Tesu");
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[W(uint32_t(i))]);
        for (auto& x : v) { if (!s.empty()) s += ' '; s += x; }
        shuffled.push_back({ "--run", s });
    }
    else
    {
        uint32_t k = W(5);
        std::string f = k == 0 ? "" : k == 1 ? ".*" + std::string(Suffix[W(4)]) : k == 2 ? p.names[W(n)] : k == 3 ? "A.*" : "(Alpha";
        if (k == 4 && W(3)) { k = 2; f = "(Alpha|Beta)_Test"; }
        badRegex = k == 4;
        auto match = [&](const std::string& s)
        {
            switch (k)
            {
            case 0: return list || endsWith(s, "_Test");
            case 1: return endsWith(s, f.substr(2));
            case 2: return f[0] == '(' ? s == "Alpha_Test" || s == "Beta_Test" : s == f;
            case 3: return s[0] == 'A';
            default: return false;
            }
        };
        for (uint32_t i = 0; i < n; ++i) if (match(p.names[i])) selected.push_back(int(i));
        if (k) shuffled.push_back({ "--filter", f });
    }
    std::sort(selected.begin(), selected.end(), [&](int a, int b) { return std::string(p.names[size_t(a)]) < std::string(p.names[size_t(b)]); });
    p.expected = selected;
    int missingAt = -1; // how many tests are run before the missing one is found
    if (missing)
    {
        missingAt = 0;
        for (int i : selected) if (std::string(p.names[size_t(i)]) < "Beta_Tesu") ++missingAt;
        p.expected.resize(size_t(missingAt));
    }
    if (badOutput || badRegex || duplicate) p.expected.clear();
    for (size_t i = shuffled.size(); i > 1; --i) std::swap(shuffled[i - 1], shuffled[W(uint32_t(i))]);
    for (auto& v : shuffled) for (auto& x : v) args.push_back(x);
    bool badArgs = W(15) == 0;
    if (badArgs)
    {
        // an option given twice, a value without an option, one value more than the option takes
        size_t pair = 1; const std::vector<std::string>* two = nullptr;
        for (auto& v : shuffled) { if (v.size() == 2) { two = &v; if (W(2)) break; } }
        for (auto& v : shuffled) { if (&v == two) break; pair += v.size(); }
        switch (W(3))
        {
        case 0: if (!shuffled.empty()) { args.push_back(shuffled[0][0]); break; } [[fallthrough]];
        case 1: if (two) { static const char* const more[] = { "surplus", "-5", "--1", "", "---x" }; args.insert(args.begin() + std::ptrdiff_t(pair) + 2, more[W(5)]); probe("one value too many"); break; } [[fallthrough]];
        default: args.insert(args.begin() + 1, "loose"); break;
        }
    }
    std::vector<char*> argv; for (auto& a : args) argv.push_back(a.data());

    int rc = -1; bool argsThrew = false, foreign = false, mapThrew = false, duplicateThrew = false; std::string mapFailure, lastOutput;
    std::thread stopper;
    std::stop_source outer;
    if (!mapMode)
    {
        try { rc = Run(int(argv.size()), argv.data()); }
        catch (const TestException&) { argsThrew = true; }
        catch (const Foreign&) { foreign = true; }
        
    }
    else
    {
        int64_t outerAt = -1;
        if (W(2)) { outerAt = Times[W(5)] * Ms; p.outer = &outer; }
        if (outerAt >= 0)
            stopper = std::thread([&]
            {
                if (outerAt) std::this_thread::sleep_for(std::chrono::nanoseconds(outerAt)); else for (uint32_t i = W(8); i; --i) yield("stopper");
                outer.request_stop(); cell(30) = 1;
            });
        try
        {
            CommandLineProvider ap(int(argv.size()), argv.data());
            TestContext context{ std::cout, outer.get_token(), ap };
            std::optional<TestMap> map;
            try { map.emplace(); } catch (const TestException&) { duplicateThrew = true; }
            if (map)
            {
                SIM_CHECK(map->GetTestCount() == n, "count", "the map has %zu tests instead of %u", map->GetTestCount(), n);
                try
                {
                    map->RunAll(context, [&](const awl::String& s) { return std::any_of(selected.begin(), selected.end(), [&](int i) { return s == p.names[size_t(i)]; }); });
                }
                catch (const TestException& e) { mapThrew = true; mapFailure = e.What(); }
                catch (const Foreign&) { foreign = true; }
                lastOutput = map->GetLastOutput();
            }
        }
        catch (const TestException&) { argsThrew = true; }
        if (stopper.joinable()) stopper.join();
    }
    text = console.text();
    Shutdown();
    SIM_CHECK(GetTestChain().empty(), "chain", "tests are left after the shutdown");

    SIM_CHECK(argsThrew == badArgs, "arguments", badArgs ? "wrong arguments are not reported" : "correct arguments are rejected");
    bool failExpected = false;
    if (!badArgs)
    {
        size_t due = duplicate ? 0 : p.expected.size() * size_t(p.loops);
        // The first failure ends the run.
        size_t at = 0; bool found = false;
        for (; at < due && !found; ++at) { const Behaviour& b = p.beh[size_t(p.expected[at / size_t(p.loops)])]; if (b.act != Pass && int(at % size_t(p.loops)) == b.failAt) found = true; }
        if (list) { due = 0; found = false; at = 0; }
        SIM_CHECK(p.ran.size() == (found ? at : due), "not-run", "%zu tests were run instead of %zu", p.ran.size(), found ? at : due);
        SIM_CHECK(found == p.failed, "not-failed", "a test was to fail and did not");
        SIM_CHECK(foreign == (found && p.escaped), "foreign", "an exception of a test that is not a test failure %s", foreign ? "came from nowhere" : "is swallowed");
        size_t shown = 0;
        for (auto& m : p.marks)
        {
            bool last = p.failed && std::find(p.failedMarks.begin(), p.failedMarks.end(), m) != p.failedMarks.end();
            size_t k = countOf(text, m), want = p.out == All ? 1 : p.out == Failed && last && !mapMode && !foreign ? 1 : 0;
            SIM_CHECK(k == want, "output", "%s is %zu times in the output instead of %zu", m.c_str(), k, want);
            if (mapMode)
            {
                k = countOf(lastOutput, m); want = p.out == Failed && last ? 1 : 0;
                SIM_CHECK(k == want, "output", "%s is %zu times in the last output instead of %zu", m.c_str(), k, want);
            }
            shown += k;
        }
        if (shown) probe("output of a failed test shown");
        if (!list && !duplicate)
        {
            SIM_CHECK(int(countOf(text, "\tPassed within ")) == p.passed, "passed", "%zu tests are reported to have passed, %d did", countOf(text, "\tPassed within "), p.passed);
            int t = int(countOf(text, "The timeout of "));
            SIM_CHECK(t >= p.minTimeouts && t <= p.maxTimeouts, "timeouts", "%d timeouts are reported, it should be from %d to %d", t, p.minTimeouts, p.maxTimeouts);
            if (t) probe("timeout reported", uint64_t(t));
            if (p.timeout < 0) SIM_CHECK(t == 0, "timeouts", "a timeout is reported, there is none");
        }
        if (!mapMode)
        {
            bool ok = countOf(text, "The tests passed") != 0, bad = countOf(text, "The tests failed: ") != 0, err = countOf(text, "The following error has occurred: ") != 0;
            failExpected = found || missing || badRegex || (badOutput && !selected.empty());
            if (foreign) SIM_CHECK(!ok, "verdict", "the tests passed although an exception came out");
            else if (list)
            {
                SIM_CHECK(err == (badRegex || duplicate) && !ok && !bad, "verdict", "listing the tests reports the wrong result");
                SIM_CHECK(rc == (err ? 2 : 0), "exit", "listing the tests exits with %d", rc);
                if (!err)
                {
                    size_t pos = 0;
                    for (int i : selected)
                    {
                        size_t k = text.find(std::string(p.names[size_t(i)]) + "\n", pos);
                        SIM_CHECK(k != std::string::npos, "list", "%s is not listed in its place", p.names[size_t(i)]);
                        pos = k + 1;
                    }
                    SIM_CHECK(countOf(text, "\n") == selected.size() + 1 + countOf(text, "Unused option"), "list", "more is listed than selected");
                    SIM_CHECK(countOf(text, "Total " + std::to_string(selected.size()) + " tests.") == 1, "list", "the total is wrong");
                    probe("tests listed");
                }
            }
            else if (duplicate) { SIM_CHECK(err && !ok && !bad && rc == 2, "verdict", "two tests of one name are not reported"); probe("two tests of one name"); }
            else
            {
                SIM_CHECK(ok == !failExpected && bad == failExpected && !err, "verdict", failExpected ? "a failure is not reported" : "passed tests are not reported as passed");
                SIM_CHECK(rc == (failExpected ? 1 : 0), "exit", "the exit code is %d when the tests %s", rc, failExpected ? "failed" : "passed");
                std::string head = "Running " + std::to_string(selected.size() + (missing ? 1 : 0)) + " tests";
                if (!badRegex) SIM_CHECK(countOf(text, head) == 1, "head", "the number of tests is announced wrongly");
                if (failExpected) probe("failure reported");
            }
            if (unused) SIM_CHECK(countOf(text, "Unused option 'nonsense'") == 1, "unused", "an unused option is not reported");
        }
        else
        {
            SIM_CHECK(duplicateThrew == duplicate, "verdict", "two tests of one name are %s", duplicate ? "not reported" : "reported, there are none");
            bool want = !duplicate && ((found && !p.escaped) || (badOutput && !selected.empty()));
            SIM_CHECK(mapThrew == want, "verdict", want ? "a failure is not reported" : "a failure is reported, there is none");
            if (mapThrew && found && !badOutput) probe("failure reported");
        }
    }
    state(p.ran.size() * 31 + uint64_t(p.out) * 7 + uint64_t(mapMode) * 3 + uint64_t(p.passed) * 1009 + uint64_t(failExpected));
    plan = nullptr;
}
