// Virtual time: every thread of the node that sleeps waits until the harness moves time on.
// One thread runs at a time, in an order the harness chooses, unless a pause point is armed.
#pragma once
#include <time.h>
#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vstub/vstub.hpp>
#include "vh.hpp"

namespace vt
{
inline thread_local bool tl_harness = false;   // the executor's thread, and the harness's helpers
inline thread_local bool tl_nopause = false;   // stopped at a pause point only if asked for
inline thread_local int tl_guard = 0;          // inside the harness: no hooks
struct Guard { Guard() { ++tl_guard; } ~Guard() { --tl_guard; } };

struct Sleeper { int64_t deadline = 0; bool asleep = false; };
struct World
{
  std::mutex m;
  std::condition_variable cv;
  std::map<std::thread::id, Sleeper> bg;
  int64_t now = 0;
  bool closing = false;
  // pause point
  std::string where;
  long nth = 0;
  bool paused = false, released = false, marked = false;
  std::function<void()> act;
  long points = 0, ticks = 0;
};
inline World & w() { static World * x = new World; return *x; }
inline std::function<void(const char *)> g_main_hook;

inline int sleep(int64_t ns)
{
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  if (x.closing) return 0;
  auto & s = x.bg[std::this_thread::get_id()];
  s.deadline = x.now + ns;
  s.asleep = true;
  ++x.ticks;
  x.cv.notify_all();
  x.cv.wait(l, [&] { return !s.asleep || x.closing; });
  s.asleep = false;
  return 0;
}

// A point where the node could be interrupted
inline void point(const char * where)
{
  if (tl_guard) return;
  if (tl_harness)
  {
    if (g_main_hook) { Guard g; g_main_hook(where); }
    return;
  }
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  ++x.points;
  if (tl_nopause != x.marked || x.where.empty() || x.paused || x.closing) return;
  if (x.where != where && x.where != "any") return;
  if (--x.nth > 0) return;
  x.paused = true;
  x.released = false;
  x.cv.notify_all();
  x.cv.wait(l, [&] { return x.released || x.closing; });
  x.paused = false;
  x.where.clear();
}

inline void start()
{
  auto & x = w();
  x.bg.clear();
  x.now = 0;
  x.closing = false;
  x.where.clear();
  x.paused = x.released = false;
  x.act = nullptr;
  g_main_hook = nullptr;
  tl_harness = true;
  vstub::g_yield = [](const char * where) { point(where); };
}

inline bool quiet_locked(World & x, size_t threads)
{
  if (x.bg.size() < threads) return false;
  for (auto & s : x.bg) if (!s.second.asleep) return false;
  return true;
}
// Waits until every thread sleeps; a thread stopped at the pause point is let go after the action.
inline bool wait_quiet(std::unique_lock<std::mutex> & l, size_t threads = 1, int ms = -1)
{
  auto & x = w();
  auto cond = [&] { return quiet_locked(x, threads) || (x.paused && !x.released); };
  for (;;)
  {
    if (ms < 0) x.cv.wait(l, cond);
    else if (!x.cv.wait_for(l, std::chrono::milliseconds(ms), cond)) return false;
    if (x.paused && !x.released)
    {
      auto a = x.act;
      x.act = nullptr;
      l.unlock();
      if (a) a();
      l.lock();
      x.released = true;
      x.cv.notify_all();
      continue;
    }
    return true;
  }
}
inline void settle(size_t threads = 1)
{
  Guard g;
  std::unique_lock<std::mutex> l(w().m);
  wait_quiet(l, threads);
}
inline bool advance(int64_t ns, vh::Rng & r, int ms = -1)
{
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  if (!wait_quiet(l, 1, ms)) return false;
  const int64_t target = x.now + ns;
  for (;;)
  {
    int64_t first = target + 1;
    for (auto & s : x.bg) if (s.second.deadline < first) first = s.second.deadline;
    if (first > target) break;
    std::vector<Sleeper *> due;
    for (auto & s : x.bg) if (s.second.deadline == first) due.push_back(&s.second);
    auto * s = due[r.next() % due.size()];
    if (first > x.now) x.now = first;
    vstub::g_now.store(1000000000LL + x.now, std::memory_order_relaxed);
    s->asleep = false;
    x.cv.notify_all();
    if (!wait_quiet(l, 1, ms)) return false;
  }
  x.now = target;
  vstub::g_now.store(1000000000LL + x.now, std::memory_order_relaxed);
  return true;
}
// Stops a thread of the node at the nth such point and acts there.
inline void arm(const std::string & where, long nth, std::function<void()> act, bool marked = false)
{
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  x.where = where;
  x.nth = nth;
  x.act = act;
  x.marked = marked;
}
inline bool disarm()
{
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  const bool hit = x.where.empty();
  x.where.clear();
  x.act = nullptr;
  return hit;
}
inline void release()   // from within the action
{
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  x.released = true;
  x.cv.notify_all();
}
// From within the action: the other threads run while the one stopped waits, until they sleep or need what it holds.
inline bool nudge(int ms = 40)
{
  Guard g;
  auto & x = w();
  std::unique_lock<std::mutex> l(x.m);
  for (auto & s : x.bg) s.second.asleep = false;
  x.cv.notify_all();
  return x.cv.wait_for(l, std::chrono::milliseconds(ms), [&] {
    long awake = 0;
    for (auto & s : x.bg) awake += !s.second.asleep;
    return awake <= 1 || x.closing;
  });
}
inline void close()
{
  Guard g;
  auto & x = w();
  vstub::g_ok.store(false);
  std::unique_lock<std::mutex> l(x.m);
  x.closing = true;
  x.cv.notify_all();
}
}  // namespace vt
