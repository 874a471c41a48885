// Job queues and event channels under every schedule (preemption-bounded), and job queues under
// every short sequence of operations, against a list.
#include <deque>
#include <map>
#include <memory>
#include <thread>

#include <vrs/helpers/JobQueue.h>
#include <vrs/os/Event.h>

#include "mc.h"
#include "mcsched.h"

using namespace std;
using namespace vrs;

namespace {

string S(int64_t v) {
  return to_string(v);
}

// ---------- job queue: sequences of operations against a list ----------
void jobSequences() {
  JobQueue<shared_ptr<int>> q;
  deque<int> model;
  bool ended = false;
  int next = 0;
  const int depth = mc::thorough() ? 6 : 5;
  int len = depth;
  for (int step = 0; step < len; ++step) {
    mc::transition();
    uint64_t h = ended;
    for (int v : model) {
      h = mc::hashInt(v, h);
    }
    mc::state(mc::hashInt(next, h));
    int op = mc::choose(11, "op");
    shared_ptr<int> out;
    switch (op) {
      case 0: // stop here
        len = 0;
        break;
      case 1: {
        auto v = make_shared<int>(next++);
        q.sendJob(v);
        model.push_back(*v);
        mc::note("send(copy)");
      } break;
      case 2: {
        model.push_back(next);
        q.sendJob(make_shared<int>(next++));
        mc::note("send(move)");
      } break;
      case 3: {
        bool got = q.getJob(out);
        mc::check(got == !model.empty(), "get-job-result");
        if (got) {
          mc::check(out && *out == model.front(), "get-job-order");
          model.pop_front();
        }
        mc::note("get");
      } break;
      case 4: {
        bool got = mc::choose(2, "unit") ? q.waitForJob(out, 0.0) : q.waitForJobMs(out, 0);
        mc::check(got == !model.empty(), "poll-job-result");
        if (got) {
          mc::check(out && *out == model.front(), "poll-job-order");
          model.pop_front();
        }
        mc::note("poll");
      } break;
      case 5: {
        // a wait that can be satisfied at once, or at the end of the queue
        if (model.empty() && !ended) {
          break;
        }
        bool got = q.waitForJob(out);
        mc::check(got == (!model.empty() && !ended), "wait-job-result");
        if (got) {
          mc::check(out && *out == model.front(), "wait-job-order");
          model.pop_front();
        }
        mc::note("wait");
      } break;
      case 6: {
        deque<shared_ptr<int>> all;
        all.push_back(make_shared<int>(-1));
        if (model.empty() && !ended) {
          mc::check(!q.waitForJobsMs(all, 0) && all.empty(), "get-jobs-empty");
          break;
        }
        bool got = q.waitForJobs(all, 1.0);
        mc::check(got == !model.empty(), "get-jobs-result");
        mc::check(all.size() == (got ? model.size() : 0), "get-jobs-count");
        for (size_t i = 0; i < all.size(); ++i) {
          mc::check(all[i] && *all[i] == model[i], "get-jobs-order");
        }
        model.clear();
        mc::note("get-all");
      } break;
      case 7: {
        int parity = mc::choose(2, "parity");
        bool cleanup = mc::choose(2, "cleanup");
        vector<int> cleaned, expect;
        auto sel = [&](const shared_ptr<int>& j) { return j && (*j & 1) == parity; };
        if (cleanup) {
          q.cancelQueuedJobs(sel, [&](const shared_ptr<int>& j) { cleaned.push_back(j ? *j : -1); });
        } else {
          q.cancelQueuedJobs(sel);
        }
        deque<int> kept;
        for (int v : model) {
          if ((v & 1) == parity) {
            expect.push_back(v);
          } else {
            kept.push_back(v);
          }
        }
        model = kept;
        if (cleanup) {
          sort(cleaned.begin(), cleaned.end());
          mc::check(cleaned == expect, "cancel-cleanup", "the clean-up function must see the cancelled jobs");
        }
        mc::note("cancel");
      } break;
      case 8:
        q.cancelAllQueuedJobs();
        model.clear();
        mc::note("cancel-all");
        break;
      case 9: {
        bool clear = mc::choose(2, "clear");
        q.endQueue(clear);
        ended = true;
        if (clear) {
          model.clear();
        }
        mc::note("end");
      } break;
      case 10:
        q.reset();
        model.clear();
        ended = false;
        mc::note("reset");
        break;
    }
    mc::check(q.getQueueSize() == model.size(), "queue-size");
    mc::check(q.hasEnded() == ended, "queue-ended");
  }
  shared_ptr<int> out;
  for (int v : model) {
    mc::check(q.getJob(out) && out && *out == v, "final-drain");
  }
  mc::check(!q.getJob(out), "final-empty");
  mc::traceValidated();
}

// ---------- job queue: producers and consumers under every schedule ----------
struct Rec {
  int consumer;
  int job;
};

// consumer kinds: 0 waitForJob(v), 1 waitForJob(v, timeout) loop, 2 waitForJobs(deque) loop, 3 cond + poll
void jobConcurrent(int producers, int jobsEach, vector<int> kinds, int endMode, int copies) {
  JobQueue<int> q;
  vector<vector<int>> got(kinds.size());
  atomic<int> delivered{0};
  int total = producers * jobsEach;
  sched::Config cfg;
  cfg.timeoutCost = 50; // waits expire only when nothing else can happen
  double endTime = 0;
  int left = 0;
  sched::run(
      [&]() {
        vector<thread> th;
        for (size_t c = 0; c < kinds.size(); ++c) {
          th.emplace_back([&, c]() {
            sched::nameThread("consumer");
            int v = -1;
            if (kinds[c] >= 3) {
              // takes one job, and is then busy with it: every job needs a receiver of its own
              deque<int> jobs(1);
              if (kinds[c] == 3   ? q.waitForJob(jobs.front(), 100.0)
                  : kinds[c] == 4 ? q.waitForJob(jobs.front())
                                  : q.waitForJobs(jobs, 100.0)) {
                for (int j : jobs) {
                  got[c].push_back(j);
                  delivered++;
                }
              }
            } else if (kinds[c] == 0) {
              while (q.waitForJob(v)) {
                got[c].push_back(v);
                delivered++;
              }
            } else if (kinds[c] == 1) {
              while (!q.hasEnded()) {
                if (q.waitForJob(v, 100.0)) {
                  got[c].push_back(v);
                  delivered++;
                }
              }
            } else {
              while (!q.hasEnded()) {
                deque<int> jobs;
                if (q.waitForJobs(jobs, 100.0)) {
                  mc::check(!jobs.empty(), "jobs-empty");
                  for (int j : jobs) {
                    got[c].push_back(j);
                    delivered++;
                  }
                }
              }
            }
          });
        }
        vector<thread> pr;
        for (int p = 0; p < producers; ++p) {
          pr.emplace_back([&, p]() {
            sched::nameThread("producer");
            for (int k = 0; k < jobsEach; ++k) {
              int job = p * 100 + k;
              if (copies & (1 << k)) {
                q.sendJob(job);
              } else {
                q.sendJob(move(job));
              }
            }
          });
        }
        for (auto& t : pr) {
          t.join();
        }
        if (endMode == 0) {
          // everything sent must be delivered, without any wait having to expire
          sched::waitUntil("all delivered", [&]() { return delivered.load(memory_order_relaxed) == total || sched::now() > 1050; });
          mc::check(sched::now() < 1050, "lost-wakeup", "a job sat in the queue while a consumer slept");
        }
        q.endQueue(endMode == 2);
        for (auto& t : th) {
          t.join();
        }
        endTime = sched::now();
        int v;
        while (q.getJob(v)) {
          ++left;
        }
      },
      cfg);
  mc::check(endTime < 1050, "end-not-noticed", "a consumer slept through the end of the queue");
  vector<int> seen;
  uint64_t h = 7;
  for (auto& g : got) {
    map<int, int> last;
    for (int j : g) {
      seen.push_back(j);
      h = mc::hashInt(j, h);
      mc::check(last.count(j / 100) == 0 || last[j / 100] < j, "job-order", "jobs of one producer out of order at one consumer");
      last[j / 100] = j;
    }
    h = mc::hashInt(999, h);
  }
  mc::state(mc::hashInt(left, h));
  sort(seen.begin(), seen.end());
  for (size_t i = 1; i < seen.size(); ++i) {
    mc::check(seen[i] != seen[i - 1], "job-duplicated");
  }
  if (endMode == 0) {
    mc::check((int)seen.size() == total, "job-lost", S(seen.size()));
  } else if (endMode == 1) {
    mc::check((int)seen.size() + left == total, "job-lost-at-end", S(seen.size()) + "+" + S(left));
  }
  mc::traceValidated();
}

void jobThread() {
  sched::Config cfg;
  cfg.timeoutCost = 50;
  int handled = 0;
  sched::run(
      [&]() {
        {
          JobQueueWithThread<int> q;
          q.startThreadIfNeeded([&q, &handled]() {
            int v;
            while (q.waitForJob(v)) {
              handled += v;
            }
          });
          q.startThreadIfNeeded([]() { mc::fail("second-thread", "startThreadIfNeeded started a second thread"); });
          q.sendJob(1);
          q.sendJob(10);
          if (mc::choose(2, "explicit-end")) {
            q.endThread();
            mc::check(q.hasEnded(), "thread-not-ended");
            int h = handled;
            q.sendJob(100);
            mc::check(handled == h, "handled-after-end");
          }
        }
        mc::check(handled == 0 || handled == 1 || handled == 11, "handled-sum", S(handled));
        mc::check(sched::now() < 1004, "end-thread-slow", "ending the thread had to wait for a time-out");
      },
      cfg);
  mc::state(mc::hashInt(handled, 99));
  mc::traceValidated();
}

// ---------- event channels ----------
using EC = os::EventChannel;

// One dispatcher, several listeners already waiting: broadcast wakes all of them, unicast exactly one.
void eventWake(EC::NotificationMode mode, int listeners) {
  sched::Config cfg;
  cfg.timeoutCost = 50;
  vector<EC::Status> st(listeners, EC::Status::INVALID);
  vector<EC::Event> ev(listeners);
  vector<double> woke(listeners, 0);
  sched::run(
      [&]() {
        EC channel("test", mode);
        vector<thread> th;
        mutex m;
        for (int i = 0; i < listeners; ++i) {
          th.emplace_back([&, i]() {
            st[i] = channel.waitForEvent(ev[i], 10, 0);
            woke[i] = sched::now();
          });
        }
        // dispatch once all listeners are inside: they are when everyone else is blocked
        this_thread::sleep_for(chrono::seconds(1));
        channel.dispatchEvent(42);
        for (auto& t : th) {
          t.join();
        }
      },
      cfg);
  int ok = 0;
  for (int i = 0; i < listeners; ++i) {
    if (st[i] == EC::Status::SUCCESS) {
      ++ok;
      mc::check(ev[i].value == 42, "event-value");
      mc::check(woke[i] < 1002, "event-late", "a listener got the event only when its wait expired");
    } else {
      mc::check(st[i] == EC::Status::TIMEOUT, "event-status");
      mc::check(woke[i] >= 1009.9, "event-early-timeout", to_string(woke[i]));
    }
  }
  mc::check(ok == (mode == EC::NotificationMode::BROADCAST ? listeners : 1), "event-listeners-woken", S(ok));
  mc::traceValidated();
}

// A listener that waits in a loop, looking back in time far enough, misses no event: each is either
// delivered or counted as missed, as long as it is not waiting while two events are dispatched.
void eventLookBack(EC::NotificationMode mode, int events) {
  sched::Config cfg;
  cfg.timeoutCost = 50;
  int64_t seen = 0;
  int64_t last = 0;
  bool coalesced = false;
  sched::run(
      [&]() {
        EC channel("test", mode);
        thread t([&]() {
          while (last < events) {
            EC::Event e{};
            EC::Status s = channel.waitForEvent(e, 3, 1000);
            mc::check(s == EC::Status::SUCCESS, "event-lost", "an event was dispatched, and a listener looking back did not get it");
            mc::check(e.value > last && e.value <= events, "event-value-order", S(e.value));
            if (e.value - last != 1 + e.numMissedEvents) {
              coalesced = true; // two dispatches while one wait was being fulfilled
            }
            mc::check(e.value - last >= 1 + e.numMissedEvents, "event-overcount", S(e.value) + " after " + S(last) + " missed " + S(e.numMissedEvents));
            seen += 1 + e.numMissedEvents;
            last = e.value;
          }
        });
        for (int i = 1; i <= events; ++i) {
          channel.dispatchEvent(i);
        }
        t.join();
        mc::check(channel.getNumEventsSinceLastWait() == 0, "events-left");
      },
      cfg);
  mc::check(seen <= events, "event-seen-twice");
  mc::state(mc::hashInt(seen * 2 + coalesced, 1234));
  mc::traceValidated();
}

// Two listeners come and go while events are broadcast: nobody hangs, and everybody ends.
void eventChurn(EC::NotificationMode mode) {
  sched::Config cfg;
  cfg.timeoutCost = 1;
  int got = 0, timeouts = 0;
  sched::run(
      [&]() {
        EC channel("test", mode);
        mutex m;
        auto body = [&]() {
          for (int k = 0; k < 2; ++k) {
            EC::Event e{};
            EC::Status s = channel.waitForEvent(e, 1, 0);
            lock_guard<mutex> l(m);
            if (s == EC::Status::SUCCESS) {
              got++;
              mc::check(e.value == 1 || e.value == 2, "event-value");
            } else {
              mc::check(s == EC::Status::TIMEOUT, "event-status");
              timeouts++;
            }
          }
        };
        thread a(body), b(body);
        channel.dispatchEvent(1);
        channel.dispatchEvent(2);
        a.join();
        b.join();
      },
      cfg);
  mc::check(got <= (mode == EC::NotificationMode::BROADCAST ? 4 : 2), "event-too-many", S(got));
  mc::state(mc::hashInt(got, 4321));
  mc::traceValidated();
}

// Destroying a channel wakes those who wait.
void eventDestroy() {
  sched::Config cfg;
  cfg.timeoutCost = 50;
  sched::run(
      [&]() {
        auto channel = make_unique<EC>("test", EC::NotificationMode::BROADCAST);
        EC::Status s = EC::Status::INVALID;
        thread t([&, c = channel.get()]() {
          EC::Event e{};
          s = c->waitForEvent(e, 100, 0);
        });
        this_thread::sleep_for(chrono::seconds(1));
        channel.reset();
        t.join();
        mc::check(s == EC::Status::FAILURE, "destroy-status");
        mc::check(sched::now() < 1050, "destroy-did-not-wake");
      },
      cfg);
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  const int b = 2;
  const bool deep = argc > 1 && string(argv[1]) == "--thorough";
  const int pb = deep ? 4 : 2;
  mc::add({"job-queue/sequences", jobSequences});
  for (int end = 0; end < 3; ++end) {
    int copies = end; // which of the jobs are sent by copy
    for (int k = 0; k < 3; ++k) {
      mc::add({"job-queue/1x2-1c-kind" + S(k) + "-end" + S(end), [=]() { jobConcurrent(1, 2, {k}, end, copies); }, pb + 1});
      mc::add({"job-queue/2x1-1c-kind" + S(k) + "-end" + S(end), [=]() { jobConcurrent(2, 1, {k}, end, copies); }, pb});
      mc::add({"job-queue/1x2-2c-kind" + S(k) + "-end" + S(end), [=]() { jobConcurrent(1, 2, {k, k == 2 ? 0 : k}, end, copies); }, deep ? 3 : 1});
    }
    for (int k = 3; k < 6; ++k) {
      copies = (k == 4 ? 1 : k == 3 ? 3 : 0) ^ end;
      mc::add({"job-queue/1x2-2busy-kind" + S(k) + "-end" + S(end), [=]() { jobConcurrent(1, 2, {k, k}, end, copies); }, deep ? 4 : 2});
      mc::add({"job-queue/2x1-2busy-kind" + S(k) + "-end" + S(end), [=]() { jobConcurrent(2, 1, {k, k == 4 ? 3 : k}, end, copies); }, deep ? 3 : 1});
    }
    if (deep || end == 0) {
      mc::add({"job-queue/2x2-2c-end" + S(end), [=]() { jobConcurrent(2, 2, {0, 1}, end, copies); }, deep ? 2 : 0});
    }
  }
  mc::add({"job-queue/thread", jobThread, pb + 1});
  for (auto mode : {EC::NotificationMode::UNICAST, EC::NotificationMode::BROADCAST}) {
    string m = mode == EC::NotificationMode::UNICAST ? "unicast" : "broadcast";
    mc::add({"event/wake-1-" + m, [=]() { eventWake(mode, 1); }, pb + 1});
    mc::add({"event/wake-2-" + m, [=]() { eventWake(mode, 2); }, pb + 1});
    mc::add({"event/wake-3-" + m, [=]() { eventWake(mode, 3); }, pb});
    mc::add({"event/lookback-2-" + m, [=]() { eventLookBack(mode, 2); }, pb + 2});
    mc::add({"event/lookback-3-" + m, [=]() { eventLookBack(mode, 3); }, pb + 1});
    mc::add({"event/churn-" + m, [=]() { eventChurn(mode); }, pb});
  }
  mc::add({"event/destroy", eventDestroy, pb + 1});
  return mc::main(argc, argv, "C16");
}
