#ifndef VERIF_CAMP_CAMP_HPP
#define VERIF_CAMP_CAMP_HPP
#include <type_traits>
#include <utility>
namespace camp {
template <typename T>
using decay = typename std::decay<T>::type;
template <typename... Ts> struct list {};
struct sink {
  template <typename... T> sink(T const&...) {}
};
}
#ifndef CAMP_EXPAND
#define CAMP_EXPAND(...)                                                   \
  do {                                                                     \
    using verif_expander_ = int[];                                         \
    (void)verif_expander_{0, ((void)(__VA_ARGS__), 0)...};                 \
  } while (0)
#endif
#endif
