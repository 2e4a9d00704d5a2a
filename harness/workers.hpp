// Threads that stay alive and execute closures one at a time, so that
// thread-local state survives between operations; and a start barrier.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace vf {
class Workers {
    struct W {
        std::mutex m;
        std::condition_variable c;
        std::deque<std::function<void()>> q;
        bool stop = false, busy = false;
        std::thread t;
    };
    std::vector<std::unique_ptr<W>> w;

public:
    explicit Workers(int n)
    {
        for (int i = 0; i < n; i++) {
            w.push_back(std::make_unique<W>());
            W *x = w.back().get();
            x->t = std::thread([x] {
                std::unique_lock<std::mutex> l(x->m);
                while (true) {
                    x->c.wait(l, [x] { return x->stop || !x->q.empty(); });
                    if (x->q.empty()) return;
                    auto f = std::move(x->q.front());
                    x->q.pop_front();
                    x->busy = true;
                    l.unlock();
                    f();
                    l.lock();
                    x->busy = false;
                    x->c.notify_all();
                }
            });
        }
    }
    void post(int i, std::function<void()> f)  // 0-based worker
    {
        std::lock_guard<std::mutex> l(w[i]->m);
        w[i]->q.push_back(std::move(f));
        w[i]->c.notify_all();
    }
    void wait(int i)
    {
        std::unique_lock<std::mutex> l(w[i]->m);
        w[i]->c.wait(l, [&] { return w[i]->q.empty() && !w[i]->busy; });
    }
    // 0: this thread, 1..n: a worker, larger: a new thread
    void run(int where, std::function<void()> f)
    {
        if (where == 0) return f();
        if (where > (int)w.size()) return std::thread(f).join();
        post(where - 1, std::move(f));
        wait(where - 1);
    }
    int size() const { return w.size(); }
    ~Workers()
    {
        for (auto &x : w) {
            {
                std::lock_guard<std::mutex> l(x->m);
                x->stop = true;
                x->c.notify_all();
            }
            x->t.join();
        }
    }
};
class Barrier {  // spins, so that all threads go at the same instant
    std::atomic<int> n;

public:
    explicit Barrier(int k) : n(k) {}
    void wait()
    {
        n--;
        while (n > 0) {
        }
    }
};
}  // namespace vf
