// Stand-in for camp/resource.hpp: host-only resource with a no-op event.
#ifndef VERIF_CAMP_RESOURCE_HPP
#define VERIF_CAMP_RESOURCE_HPP
#include "camp/resource/platform.hpp"
namespace camp {
namespace resources {
class Event {
 public:
  bool check() const { return true; }
  void wait() const {}
};
class Host {
 public:
  static Host get_default() { return Host(); }
  Event get_event() { return Event(); }
  Platform get_platform() const { return Platform::host; }
  void wait() {}
};
class Resource {
 public:
  Resource() {}
  Resource(Host) {}
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event(); }
  void wait() {}
};
template <typename Res>
class EventProxy {
 public:
  EventProxy(Res r) : m_res(r) {}
  EventProxy(EventProxy&&) = default;
  EventProxy(const EventProxy&) = default;
  EventProxy& operator=(EventProxy&&) = default;
  Event get() { return m_res.get_event(); }
  operator Event() { return get(); }
 private:
  Res m_res;
};
}
}
#endif
