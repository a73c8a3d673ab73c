// C++ runtime: static objects, containers, exceptions, streams, threads, aligned and custom new.
#include <algorithm>
#include <any>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <forward_list>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <numeric>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>
using namespace std;
static uint64_t seed;
struct Rng {
    uint64_t s;
    uint64_t operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
};
static void bad(const char *w) { cout << "WRONG " << w << endl; _Exit(9); }
struct Early { // built before main, torn down after it, with output
    map<string, vector<int>> m;
    string name;
    Early(string n) : name(n) { for(int i = 0; i < 300; i++) m[n + to_string(i * 7919 % 300)].assign(i % 50, i); }
    ~Early() {
        uint64_t h = 0;
        for(auto &[k, v] : m) h = h * 31 + k.size() * v.size() + accumulate(v.begin(), v.end(), 0);
        cout << name << " gone " << hex << h << dec << " " << stringstream("some words in a stream").str() << endl;
    }
};
static Early e1("a first static object with quite a long name"), e2("second");
struct __attribute__((aligned(128))) Al { char c[200]; Al() { if((uintptr_t) this % 128) bad("alignment"); fill(begin(c), end(c), 3); } };
struct Base { virtual ~Base() {} virtual int f() = 0; };
template <int N> struct D : Base { char pad[N]; unique_ptr<string> s = make_unique<string>(N, 'd'); int f() override { return N + s->size(); } };
struct ThrowingCtor { string a = string(100, 'x'); ThrowingCtor(int i) { if(i % 3 == 0) throw runtime_error("constructor " + to_string(i)); } };
thread_local struct Tls { vector<string> v; ~Tls() { v.clear(); } } tls;
static uint64_t work(uint64_t sd, int n) {
    Rng r{sd * 2654435761u + 99};
    uint64_t h = 0;
    unordered_map<string, deque<int>> um;
    list<shared_ptr<Base>> l;
    set<pair<int, string>> st;
    vector<any> an;
    for(int i = 0; i < n; i++) {
        string k(r() % 60, 'a' + r() % 26);
        um[k].push_back(i);
        if(um.size() > 200) um.erase(um.begin()->first);
        switch(r() % 6) {
        case 0: l.push_back(make_shared<D<16>>()); break;
        case 1: l.push_back(make_shared<D<700>>()); break;
        case 2: l.push_front(make_shared<D<9000>>()); break;
        case 3: l.push_front(make_shared<D<100000>>()); break;
        default: if(!l.empty()) { h += l.front()->f(); if(r() % 2) l.pop_front(); else l.pop_back(); }
        }
        while(l.size() > 60) l.pop_back();
        st.insert({r() % 500, k});
        if(st.size() > 300) st.erase(st.begin());
        try { ThrowingCtor *t = new ThrowingCtor(i); h += t->a.size(); delete t; } catch(runtime_error &e) { h += string(e.what()).size(); }
        if(i % 10 == 0) { auto *a = new Al[1 + r() % 5]; h += a[0].c[100]; delete[] a; auto *b = new Al; delete b; }
        if(i % 16 == 0) { an.emplace_back(k); an.emplace_back(vector<double>(r() % 4000, 1.5)); if(an.size() > 40) an.clear(); }
        tls.v.push_back(k);
        if(tls.v.size() > 500) tls.v.resize(20);
        if(i % 50 == 0) { stringstream ss; ss << hex << h << " " << k << " " << 3.25; string x; ss >> x; h ^= x.size(); }
        if(i % 500 == 0) { regex re("([a-z]+)([0-9]*)"); smatch m; if(!regex_match(k = "abc" + to_string(i), m, re)) bad("regex"); h += m[2].length(); }
        if(i % 400 == 0) { vector<uint64_t> v(r() % 60000); for(auto &x : v) x = r(); sort(v.begin(), v.end()); if(!is_sorted(v.begin(), v.end())) bad("sort"); vector<uint64_t> tmp(v); inplace_merge(tmp.begin(), tmp.begin() + tmp.size() / 2, tmp.end()); if(tmp != v) bad("merge"); }
    }
    for(auto &[k, d] : st) h = h * 31 + k + d.size();
    pmr::monotonic_buffer_resource mb;
    pmr::vector<pmr::string> pv(&mb);
    for(int i = 0; i < 200; i++) pv.emplace_back(string(i, 'p'));
    return h + pv.size();
}
int main(int argc, char **argv) {
    seed = strtoull(argv[1], nullptr, 10);
    int n = atoi(argv[2]), nt = atoi(argv[3]);
    cout << "main " << hex << work(seed, n) << endl;
    vector<uint64_t> res(nt * 3);
    for(int round = 0; round < 3; round++) {
        vector<thread> th;
        for(int i = 0; i < nt; i++) th.emplace_back([&, i, round] { res[round * nt + i] = work(seed + i * 100 + round, n); });
        for(auto &t : th) t.join();
    }
    for(auto x : res) cout << x << " ";
    cout << endl;
    /* blocks made in one thread die in another */
    mutex mu;
    condition_variable cv;
    queue<unique_ptr<vector<string>>> q;
    bool done = false;
    atomic<uint64_t> got{0}, made{0};
    vector<thread> th;
    for(int i = 0; i < nt; i++) th.emplace_back([&] {
        for(;;) {
            unique_ptr<vector<string>> p;
            { unique_lock<mutex> lk(mu); cv.wait(lk, [&] { return done || !q.empty(); }); if(q.empty()) return; p = move(q.front()); q.pop(); }
            for(auto &s : *p) got += s.size() + (s.empty() ? 0 : s.back());
        }
    });
    Rng r{seed + 7};
    for(int i = 0; i < n; i++) {
        auto p = make_unique<vector<string>>();
        for(int k = r() % 20; k > 0; k--) { p->emplace_back(r() % 300, 'a' + r() % 26); made += p->back().size() + (p->back().empty() ? 0 : p->back().back()); }
        { lock_guard<mutex> lk(mu); q.push(move(p)); }
        cv.notify_one();
    }
    { lock_guard<mutex> lk(mu); done = true; }
    cv.notify_all();
    for(auto &t : th) t.join();
    if(got != made) bad("queue");
    vector<future<uint64_t>> fs;
    for(int i = 0; i < nt; i++) fs.push_back(async(launch::async, work, seed + i, n / 4));
    for(auto &f : fs) cout << f.get() << " ";
    try { throw make_shared<string>("thrown"); } catch(shared_ptr<string> &s) { cout << *s; }
    void *p = operator new(1000, align_val_t(512), nothrow);
    if((uintptr_t) p % 512) bad("aligned new");
    operator delete(p, align_val_t(512));
    operator delete(operator new(50), (size_t) 50);
    operator delete[](operator new[](0));
    delete[] new(nothrow) int[1000];
    static Early late("made in main");
    exception_ptr ep = make_exception_ptr(runtime_error("kept"));
    try { rethrow_exception(ep); } catch(exception &e) { cout << e.what() << endl; }
    atexit([] { cout << string(5000, '.') << endl; });
    return 42;
}
