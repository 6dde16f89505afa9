// A storage back-end that watches the buffer protocol and can be told to fail.
#pragma once
#include "lg.h"
#include <vector>
#include <stdexcept>
#include <system_error>
namespace bs {
struct Ev { char k; std::string data; size_t cap; };
struct Rec {
    std::mutex m; std::vector<size_t> sizes; size_t nalloc = 0; std::string out; std::vector<std::pair<char, std::string>> fails; // in order: 's' contents of a refused buffer, 'a' stream so far
   
    std::vector<std::unique_ptr<char[]>> all; std::vector<size_t> cap; std::vector<bool> done; char* cur = nullptr; size_t curcap = 0;
    long flushes = 0, syncs = 0, submits = 0, flushed = 0, synced = 0; pid_t tid = 0; bool gone = false; std::string bad; size_t short_submit = 0; bool expect_flush = false; bool line_ends = true;
    // failures: call number -> fail
    std::vector<int> fsub, falloc, fflush; long nsub = 0, nall = 0, nfl = 0; int failures = 0;
    int exc = 0; // what kind of exception a failing call throws
    void raise(const char* w) { switch (exc) { default: throw std::runtime_error(w); case 1: throw std::length_error(w); case 2: throw std::bad_alloc(); case 3: throw std::system_error(ENOSPC, std::generic_category(), w); case 4: throw Odd(); } }
    struct Odd : std::exception { const char* what() const noexcept override { return "{} %s\n"; } };
    void viol(const std::string& s) { if (bad.empty()) bad = s; }
    bool hit(const std::vector<int>& v, long n) { for (int x : v) if (x == n) { failures++; return true; } return false; }
};
struct St : xtr::storage_interface {
    std::shared_ptr<Rec> r; explicit St(std::shared_ptr<Rec> x) : r(std::move(x)) {}
    void enter(const char* what) { pid_t t = pid_t(syscall(SYS_gettid)); if (!r->tid) r->tid = t; else if (r->tid != t) r->viol(std::string(what) + " was called by a different thread"); if (r->expect_flush && *what != 'f') r->viol("a buffer that was not full was submitted although no flush followed"); r->expect_flush = false; }
    std::span<char> allocate_buffer() override
    {
        std::scoped_lock l(r->m); enter("allocate_buffer");
        if (r->cur) r->viol("a buffer was allocated before the previous one was submitted");
        if (r->hit(r->falloc, r->nall++)) { r->fails.emplace_back('a', r->out); r->raise("allocate_buffer fails"); }
        size_t n = r->sizes[r->nalloc++ % r->sizes.size()]; r->all.emplace_back(new char[n]); r->cap.push_back(n); r->done.push_back(false); r->cur = r->all.back().get(); r->curcap = n; memset(r->cur, 1, n); return {r->cur, n};
    }
    void submit_buffer(char* p, std::size_t n) override
    {
        std::scoped_lock l(r->m); enter("submit_buffer");
        if (!r->cur || p != r->cur) { r->viol("a buffer was submitted that was not the one allocated last, or twice"); return; }
        if (n < 1 || n > r->curcap) { r->viol("a buffer was submitted with size " + std::to_string(n) + " of " + std::to_string(r->curcap)); return; }
        for (size_t i = 0; i < r->curcap; ++i) if ((p[i] == 1) != (i >= n)) { r->viol(i < n ? "bytes were submitted that were never written" : "bytes were written but not submitted"); break; }
        if (r->hit(r->fsub, r->nsub++)) { r->fails.emplace_back('s', std::string(p, n)); r->raise("submit_buffer fails"); } // the buffer stays with the caller
        r->out.append(p, n); r->submits++; if (n < r->curcap) { r->expect_flush = true; r->short_submit++; }
        memset(p, 2, r->curcap); r->done.back() = true; r->cur = nullptr;
    }
    void flush() override
    {
        std::scoped_lock l(r->m); enter("flush");
        if (r->cur) r->viol("flush was requested while a buffer was still to be submitted");
        if (r->line_ends && !r->out.empty() && r->out.back() != '\n') r->viol("flush was requested in the middle of a line");
        if (r->hit(r->fflush, r->nfl++)) r->raise("flush fails");
        r->flushed = long(r->out.size()); r->flushes++;
    }
    void sync() noexcept override { std::scoped_lock l(r->m); enter("sync"); r->syncs++; r->synced = r->flushed; }
    int reopen() noexcept override { return 0; }
    ~St() { std::scoped_lock l(r->m); r->gone = true; }
};
// after the logger is gone
inline void finish(Rec& r, bool faults)
{
    if (!r.bad.empty()) seq::fail("%s", r.bad.c_str());
    if (!r.gone) seq::fail("the back-end was not released");
    if (!faults) { if (r.cur) seq::fail("the last buffer was never submitted"); if (r.flushed != long(r.out.size())) seq::fail("the end of the log was not flushed"); }
    for (size_t i = 0; i < r.all.size(); ++i) if (r.done[i]) for (size_t j = 0; j < r.cap[i]; ++j) if (r.all[i][j] != 2) seq::fail("a buffer was written to after it was submitted");
}
}
