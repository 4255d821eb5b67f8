// An expectation step wrapper that decides in which order documents that are inferred
// concurrently complete.  A document is identified by the count of its first word.
#ifndef GATE_HPP
#define GATE_HPP
#include "model_gen.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>

struct Gate {
    std::mutex m;
    std::condition_variable cv;
    std::vector<int> prio;          // by document id: smaller leaves first
    int workers = 1, total = 0, finished = 0;
    std::set<std::pair<int, int> > waiting;
    bool on = false;
    int timeouts = 0;
    void arm(const std::vector<int> &p, int w) {
        std::lock_guard<std::mutex> l(m);
        prio = p; workers = w; total = (int) p.size(); finished = 0; waiting.clear(); on = true;
    }
    void off() { std::lock_guard<std::mutex> l(m); on = false; }
    void pass(int id) {
        std::unique_lock<std::mutex> l(m);
        if (!on || id < 0 || id >= (int) prio.size()) return;
        auto key = std::make_pair(prio[id], id);
        waiting.insert(key);
        cv.notify_all();
        auto deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(10);
        while (!((int) waiting.size() >= std::min(workers, total - finished) && *waiting.begin() == key)) {
            if (cv.wait_until(l, deadline) == std::cv_status::timeout) { timeouts++; break; }
        }
        waiting.erase(key);
        finished++;
        cv.notify_all();
    }
};

template <typename S>
struct GatedEStep : public em::EStepInterface<S> {
    std::shared_ptr<em::EStepInterface<S> > inner;
    Gate gate;
    explicit GatedEStep(std::shared_ptr<em::EStepInterface<S> > i) : inner(i) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc,
                                                        const std::shared_ptr<parameters::Parameters> p) override {
        auto r = inner->doc_e_step(doc, p);
        gate.pass(doc->get_words()[0] - 1);
        return r;
    }
    void e_step() override { inner->e_step(); }
};
#endif
