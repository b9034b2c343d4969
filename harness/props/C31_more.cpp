#include "C31.h"
#include <boost/optional.hpp>
#include <rapidcheck/boost.h>
using namespace pbt;
using namespace c31;
template <typename T> struct c31::R<boost::optional<T>> {
  static boost::optional<T> make(Src &s) {
    if (s.draw(2) == 0)
      return boost::none;
    return boost::optional<T>(R<T>::make(s));
  }
  static std::string text(const boost::optional<T> &m) { return m ? R<T>::text(*m) : "boost::none"; }
  static std::string name() { return "boost::optional<" + R<T>::name() + ">"; }
};
FACET(sets, 3) {
  using F = void (*)(Src &, Ctx &, bool);
  static const F f[] = {
      checkShow<std::set<std::string>>, checkShow<std::multiset<char>>,
      checkShow<std::unordered_set<int>>, checkShow<std::unordered_multiset<std::string>>,
      checkShow<std::unordered_set<Both, Hash>>, checkShow<std::map<std::string, Both>>,
      checkShow<std::multimap<Mute, int>>, checkShow<std::unordered_map<int, std::vector<std::string>>>,
      checkShow<std::unordered_multimap<std::string, Streamed>>,
      checkShow<std::map<int, std::map<char, bool>>>, checkShow<std::set<std::vector<int>>>,
      checkShow<std::map<Both, std::vector<Grouped>>>, checkShow<std::set<Grouped>>};
  f[s.below(sizeof f / sizeof f[0])](s, c, false);
}
FACET(pointers, 3) {
  using F = void (*)(Src &, Ctx &, bool);
  static const F f[] = {
      checkShow<std::unique_ptr<int>>, checkShow<std::shared_ptr<std::string>>,
      checkShow<std::unique_ptr<char>>, checkShow<std::shared_ptr<unsigned char>>,
      checkShow<int *>, checkShow<Both *>, checkShow<int **>, checkShow<std::string *>,
      checkShow<std::vector<std::shared_ptr<Both>>>,
      checkShow<std::unique_ptr<std::unique_ptr<std::vector<Streamed>>>>,
      checkShow<std::shared_ptr<std::vector<Grouped>>>, checkShow<std::shared_ptr<const int>>,
      checkShow<std::map<int, std::unique_ptr<Mute>>>, checkShow<std::tuple<std::unique_ptr<int>, int>>};
  f[s.below(sizeof f / sizeof f[0])](s, c, false);
}
FACET(optionals, 3) {
  using F = void (*)(Src &, Ctx &, bool);
  static const F f[] = {
      checkShow<rc::Maybe<int>, false>, checkShow<rc::Maybe<std::string>, false>, checkShow<rc::Maybe<Mute>, false>,
      checkShow<rc::Maybe<rc::Maybe<Both>>, false>, checkShow<std::vector<rc::Maybe<char>>, false>,
      checkShow<rc::Maybe<std::vector<Grouped>>, false>, checkShow<rc::Maybe<std::unique_ptr<int>>, false>,
      checkShow<boost::optional<int>, false>, checkShow<boost::optional<std::string>, false>,
      checkShow<boost::optional<Both>, false>, checkShow<boost::optional<Mute>, false>,
      checkShow<std::vector<boost::optional<bool>>, false>,
      checkShow<boost::optional<boost::optional<char>>, false>,
      checkShow<std::map<int, boost::optional<std::vector<Grouped>>>, false>,
      checkShow<std::tuple<boost::optional<Streamed>, rc::Maybe<double>>, false>};
  f[s.below(sizeof f / sizeof f[0])](s, c, false);
}
