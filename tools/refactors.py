#!/usr/bin/env python3
"""Behaviour-preserving edits: refactors.py SET [Cxx...] applies every edit of a set to a scratch copy of the headers and runs the checks on it.
Checks must stay quiet and complete.  (Development only.)"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HG = "HyperCubicGrid.hpp"; L = "Lattice.hpp"; MU = "MathUtils.hpp"; RN = "RationalNum.hpp"; RU = "RelationalUtils.hpp"; B = "Bravais.hpp"; PA = "Pairs.hpp"; AC = "Accumulators.hpp"
KA, NA, KW, WA, NI = ("accumulators/%sAccumulator.hpp" % n for n in ("Kahan", "Neumaier", "KnuthWelford", "West", "NaiveInteger"))
HA = "HistAccumulator.hpp"; MS = "mcutils/MoveStats.hpp"; OG = "ObservableGroup.hpp"; ES = "EnumString.hpp"; AP = "Approx.hpp"; FU = "FileUtils.hpp"; LI = "LinSpace.hpp"; LO = "LogSpace.hpp"; RG = "RNGUtils.hpp"
SETS = {}
SETS["a"] = [
(HG, """      auto s = static_cast<long>(size_[i]);
      while (coords[i] < 0) {
        coords[i] += s;
      }
      while (coords[i] >= static_cast<long>(s)) {
        coords[i] -= s;
      }
""", """      auto const s = static_cast<long>(size_[i]);
      auto const r = coords[i] % s;
      coords[i] = r < 0 ? r + s : r;
"""),
(HG, "    if (coords[i] < 0L || static_cast<size_t>(coords[i]) >= size_[i]) {\n      return false;\n    }\n  }\n  return true;", "    auto const inside = coords[i] >= 0L && coords[i] < static_cast<long>(size_[i]);\n    if (!inside && !(coords[i] >= 0L && static_cast<size_t>(coords[i]) < size_[i])) {\n      return false;\n    }\n  }\n  return true;"),
(HG, """      if (cbi > si_half) {
        cbi -= si;
      }
      if ((cbi < -si_half) ||
          (si % 2 == 0 && cbi == -si_half)) {
        cbi += si;
      }
""", """      auto const n = static_cast<long>(si);
      auto const even = n % 2 == 0;
      if (cbi > si_half) {
        cbi -= n;
      } else if (cbi < -si_half) {
        cbi += n;
      }
      if (even && cbi == -si_half) {
        cbi = si_half;
      }
"""),
(HG, "  auto cb = GetCoordinates(b);\n  subtract_into(cb, GetCoordinates(a));\n  EnforceBoundaries(cb);\n  return GetIndex(cb);", "  auto const ca = GetCoordinates(a);\n  auto diff = GetCoordinates(b);\n  for (auto i = 0UL; i < dim_; i++) {\n    diff[i] -= ca[i];\n  }\n  EnforceBoundaries(diff);\n  return array_to_index(diff, size_);"),
(HG, "  auto ca = GetCoordinates(a);\n  sum_into(ca, GetCoordinates(i));\n  EnforceBoundaries(ca);\n  return GetIndex(ca);", "  auto ci = GetCoordinates(i);\n  auto const ca = GetCoordinates(a);\n  sum_into(ci, ca);\n  EnforceBoundaries(ci);\n  return GetIndex(ci);"),
(HG, "  , numsites_(accumulate_product(size))", "  , numsites_(std::accumulate(size.begin(), size.end(), 1UL, [](size_t x, size_t y) { return x * y; }))"),
(MU, """  auto index = 0UL;
  auto prod = accumulate_product(size);

  for (auto i = 0UL; i < dim; i++) {
    prod /= size[i];
    index += prod * static_cast<size_t>(a[i]);
  }

  return index;""", """  auto index = 0UL;
  for (auto i = 0UL; i < dim; i++) {
    index = index * size[i] + static_cast<size_t>(a[i]);
  }
  return index;"""),
(MU, """  for (auto i = 0UL; i < dim; i++) {
    prod /= size[i];
    result[i] = static_cast<typename C::value_type>(index / prod);
    index = index % prod;
  }
""", """  for (auto i = dim; i-- > 1UL;) {
    result[i] = static_cast<typename C::value_type>(index % size[i]);
    index /= size[i];
    prod /= size[i];
  }
  if (dim > 0) {
    result[0] = static_cast<typename C::value_type>(index);
  }
"""),
(PA, "  return std::make_pair(i % maxval, i / maxval);", "  auto const second = i / maxval;\n  return { i - second * maxval, second };"),
(PA, "  auto i = b * maxval + a;\n  return i;", "  return a + maxval * b;"),
(MU, "  T d = 0;\n  for (auto x : v) {\n    d += square<T>(x);\n  }\n  return d;", "  return std::accumulate(v.begin(), v.end(), T{ 0 }, [](T acc, auto x) { return acc + square<T>(x); });"),
(MU, "  return *std::max_element(v.begin(), v.end());", "  auto best = v.begin();\n  for (auto it = v.begin(); it != v.end(); ++it) {\n    if (*best < *it) {\n      best = it;\n    }\n  }\n  return *best;"),
(MU, "  return *std::min_element(v.begin(), v.end());", "  auto best = v.begin();\n  for (auto it = v.begin(); it != v.end(); ++it) {\n    if (*it < *best) {\n      best = it;\n    }\n  }\n  return *best;"),
(MU, "  return std::accumulate(v.begin(), v.end(), static_cast<T>(0));", "  T r = 0;\n  for (auto const& x : v) {\n    r = r + x;\n  }\n  return r;"),
(MU, "  return (T(0) < val) - (val < T(0));", "  if (val > T(0)) {\n    return 1;\n  }\n  return val < T(0) ? -1 : 0;"),
(MU, "  return (a > b) ? (a - b) : (b - a);", "  return (a < b) ? (b - a) : (a - b);"),
(MU, "  return (a > b) ? (R)(a - b) : -(R)(b - a);", "  if (a < b) {\n    return -static_cast<R>(b - a);\n  }\n  return static_cast<R>(a - b);"),
(MU, "  if (b == 0) {\n    return a;\n  }\n  return get_gcd(b, a % b);", "  while (b != 0) {\n    T const r = a % b;\n    a = b;\n    b = r;\n  }\n  return a;"),
(MU, "  for (T i = 1; i <= k; ++i) {\n    res *= n + 1 - i;\n    res /= i;\n  }", "  for (T i = 0; i < k; ++i) {\n    res = res * (n - i) / (i + 1);\n  }"),
(MU, "invert(Container& c) -> Container&\n{\n  for (auto& x : c) {\n    x = -x;\n  }", "invert(Container& c) -> Container&\n{\n  std::transform(c.begin(), c.end(), c.begin(), [](auto x) { return -x; });"),
(MU, "  return x >= 0.0 ? 1.0 : 0.0;", "  return static_cast<Floating>(x >= Floating(0));"),
(MU, "  auto t = static_cast<Floating>(i) / static_cast<Floating>(j);\n  return lerp(a, b, t);", "  return lerp(a, b, static_cast<Floating>(i) / static_cast<Floating>(j));"),
(MU, "  auto comul = probs;\n\n  std::partial_sum(probs.begin(), probs.end(), comul.begin());\n", "  auto comul = probs;\n  for (auto i = 1UL; i < comul.size(); i++) {\n    comul[i] += comul[i - 1];\n  }\n"),
(MU, "  typename T::const_iterator choice =\n    std::upper_bound(comul.cbegin(), comul.cend(), rnd);\n\n  return static_cast<SizeType>(std::distance(comul.cbegin(), choice));", "  auto const choice = std::find_if(comul.cbegin(), comul.cend(), [&](auto x) { return rnd < x; });\n  return static_cast<SizeType>(choice - comul.cbegin());"),
(MU, "  return static_cast<bool>(udist(rng) < prob);", "  auto const u = udist(rng);\n  return prob > u;"),
(MU, "    count = std::distance(it, to);\n  }", "    count = to - it;\n  }"),
(MU, "    if (!(value < *nt)) { // value >= *nt\n      it = ++nt;\n    } else {\n      to = --nt;\n    }", "    if (value < *nt) {\n      to = std::prev(nt);\n    } else {\n      it = std::next(nt);\n    }"),
(B, "  auto p = Bravais::realvec_t(dim_, 0.0);\n  for (auto i = 0UL; i < dim_; i++) {\n    for (auto j = 0UL; j < dim_; j++) {\n      p[i] += coords[j] * pvectors_[i + j * dim_];\n    }\n  }\n  return p;", "  auto p = Bravais::realvec_t{};\n  for (auto i = 0UL; i < dim_; i++) {\n    auto s = 0.0;\n    for (auto j = 0UL; j < dim_; j++) {\n      s += static_cast<double>(coords[j]) * pvectors_[i + j * dim_];\n    }\n    p.push_back(s);\n  }\n  return p;"),
(B, "      p[i] += realspace[j] * pivectors_[i * dim_ + j];", "      auto const w = pivectors_[dim_ * i + j];\n      p[i] = p[i] + w * realspace[j];"),
(B, "  auto p = GetVector(first, second);\n  auto d = 0.0;\n  for (size_t i = 0; i < dim_; i++) {\n    d += square(p[i]);\n  }\n\n  return std::sqrt(d);", "  return GetDistanceVector(first, second).first;"),
(B, "  auto p = GetVector(first, second);\n  auto d = 0.0;\n  for (size_t i = 0; i < dim_; i++) {\n    d += square(p[i]);\n  }\n\n  return std::make_pair(std::sqrt(d), p);", "  auto p = GetVector(first, second);\n  auto const d = sum_squared<realvec_t, double>(p);\n\n  return { std::sqrt(d), std::move(p) };"),
(B, "  auto sidx = idx % 2UL == 0UL ? 1 : -1;\n  auto n = point;\n\n  for (auto i = 0UL; i < dim_; i++) {\n    n[i] += sidx * neighbors_[aidx * dim_ + i];\n  }\n  return n;", "  auto n = point;\n  auto const* dir = neighbors_.data() + aidx * dim_;\n  for (auto i = 0UL; i < dim_; i++) {\n    if ((idx & 1UL) == 0UL) {\n      n[i] += dir[i];\n    } else {\n      n[i] -= dir[i];\n    }\n  }\n  return n;"),
(L, "    auto s = GetSize()[i];\n    while (coords[i] < 0) {\n      coords[i] += s;\n    }\n    while (coords[i] >= static_cast<long>(s)) {\n      coords[i] -= s;\n    }", "    auto const s = static_cast<long>(GetSize()[i]);\n    coords[i] = ((coords[i] % s) + s) % s;"),
(L, "  std::transform(jumps.begin(),\n                 jumps.end(),\n                 GetSize().cbegin(),\n                 jumps.begin(),\n                 std::divides<typename coords_t::value_type>());\n", "  for (auto i = 0UL; i < GetDim(); i++) {\n    jumps[i] /= static_cast<long>(GetSize()[i]);\n  }\n"),
(L, "  auto result = std::find(neighbors_[a].begin(), neighbors_[a].end(), b);\n\n  return result != neighbors_[a].end();", "  for (auto x : neighbors_[a]) {\n    if (x == b) {\n      return true;\n    }\n  }\n  return false;"),
(L, "      for (auto k = 0UL; k < nimg; k++) {\n        auto img", "      for (auto k = nimg; k-- > 0UL;) {\n        auto img"),
(L, "        if (dist < mindist) {\n          mindist = dist;\n          minvec = vec;\n        }", "        if (mindist > dist) {\n          mindist = std::move(dist);\n          minvec = std::move(vec);\n        }"),
(L, "  auto p = realvec_t{};\n  std::transform(vectors_.begin(),\n                 vectors_.end(),\n                 std::back_inserter(p),\n                 [](realvec_t const& x) -> double {\n                   return sqrt(sum_squared<realvec_t, double>(x));\n                 });\n  return p;", "  auto p = realvec_t{};\n  p.reserve(vectors_.size());\n  for (auto const& x : vectors_) {\n    p.push_back(l2norm(x));\n  }\n  return p;"),
(L, "    for (auto k = 0UL; k < ci.size(); k++) {\n      ci[k] -= GetSize()[k] / 2UL;\n    }", "    for (auto k = 0UL; k < GetDim(); k++) {\n      auto const half = static_cast<long>(GetSize()[k]) / 2L;\n      ci[k] = ci[k] - half;\n    }"),
(L, "      auto prod = 0.0;\n      for (auto q = 0UL; q < GetDim(); q++) {\n        prod += k[q] * x[q];\n      }\n", "      auto const prod = std::inner_product(k.begin(), k.end(), x.begin(), 0.0);\n"),
(L, "  for (auto i = 0UL; i < GetNumSites(); i++) {\n    auto const k = momenta_[i];\n    auto im", "  for (auto i = 0UL; i < n; i++) {\n    auto const& k = momenta_[i];\n    auto im"),
(KA, "  auto y = x - c_;\n  auto t = sum_ + y;\n  c_ = (t - sum_) - y;\n  sum_ = t;\n  count_++;", "  ++count_;\n  auto const corrected = x - c_;\n  auto const total = sum_ + corrected;\n  auto const gained = total - sum_;\n  c_ = gained - corrected;\n  sum_ = total;"),
(NA, "  if (std::abs(sum_) >= std::abs(x)) {\n    c_ += (sum_ - t) + x;\n  } else {\n    c_ += (x - t) + sum_;\n  }\n  sum_ = t;", "  auto const larger = std::abs(sum_) >= std::abs(x) ? sum_ : x;\n  auto const smaller = std::abs(sum_) >= std::abs(x) ? x : sum_;\n  c_ += (larger - t) + smaller;\n  sum_ = t;"),
(KW, "  if (count_ < 2) {\n    return std::nan(\"\");\n  }\n\n  auto ccount = corrected ? count_ - 1UL : count_;\n\n  return m2_ / ccount;", "  if (count_ >= 2) {\n    return m2_ / static_cast<double>(count_ - (corrected ? 1UL : 0UL));\n  }\n  return std::numeric_limits<double>::quiet_NaN();"),
(WA, "  if (w > 0.0) {\n", "  if (!(w > 0.0)) {\n    return;\n  }\n  {\n"),
(NI, "  sum_ += x;\n  sum2_ += x * x;", "  sum2_ += x * x;\n  sum_ += x;"),
(HA, "  while (idx >= nbins_) {\n    acc_.emplace_back();\n    nbins_++;\n    assert(nbins_ == acc_.size());\n  }\n  acc_[idx].Add(val);\n  count_ += 1UL;", "  if (idx >= nbins_) {\n    Resize(idx + 1UL);\n  }\n  Add(idx, val);"),
(HA, "  auto r = GetResults();\n  auto const norm = r[idx];", "  auto r = GetResults();\n  auto const norm = GetResult(idx);"),
(MS, "  var += 1UL;\n  proposedflag_ = false;\n  prob_.Add(prob);", "  prob_.Add(prob);\n  ++var;\n  proposedflag_ = false;"),
(MS, "  switch (res.GetStatus()) {\n    case MoveStatus::Accepted:\n      Accept(res.Probability());\n      break;\n    case MoveStatus::Rejected:\n      Reject(res.Probability());\n      break;\n    case MoveStatus::Impossible:\n      Impossible();\n      break;\n  }", "  if (res.IsAccepted()) {\n    Accept(res.Probability());\n  } else if (res.IsRejected()) {\n    Reject(res.Probability());\n  } else {\n    Impossible();\n  }"),
(MS, "  fmt::print(os,\n             \"{}(accepted = {:.3e}, rejected = {:.3e}, impossible = {:.3e}, \"\n             \"probability = {:.3e})\",\n             dt.name_,\n             dt.GetAcceptedRatio(),\n             dt.GetRejectedRatio(),\n             dt.GetImpossibleRatio(),\n             dt.GetAverageProbability());\n  return os;", "  return os << fmt::format(\"{}(accepted = {:.3e}\", dt.name_, dt.GetAcceptedRatio()) << fmt::format(\", rejected = {:.3e}\", dt.GetRejectedRatio()) << fmt::format(\", impossible = {:.3e}, probability = {:.3e}\", dt.GetImpossibleRatio(), dt.GetAverageProbability()) << ')';"),
(MS, "    return fmt::format(\"{} move: invalid sequence of proposals, accpetances or \"\n                       \"rejections\",\n                       name);", "    return name + \" move: invalid sequence of proposals, accpetances or rejections\";"),
(OG, "  for (auto const& [index, acc] : accumulator_) {\n    fmt::print(out, \"{},\", index);\n  }\n  fmt::print(out, \"Count\");\n  fmt::print(out, \"\\n\");", "  for (auto const& entry : accumulator_) {\n    out << entry.first << ',';\n  }\n  out << \"Count\\n\";"),
(OG, "  accumulator_.at(idx).Add(val);", "  auto it = accumulator_.find(idx);\n  if (it == accumulator_.end()) {\n    throw std::out_of_range(\"unknown observable\");\n  }\n  it->second.Add(val);"),
(OG, "    fmt::print(out, \"{:.{}e},\", acc.Mean(), precision);\n    acc.Reset();\n  }\n  fmt::print(out, \"{}\", count);\n  fmt::print(out, \"\\n\");", "    fmt::print(out, \"{0:.{1}e}\", acc.Mean(), precision);\n    out << \",\";\n    acc.Reset();\n  }\n  out << count << std::endl;"),
(FU, "  return equal(std::istreambuf_iterator<char>(f1.rdbuf()),\n               std::istreambuf_iterator<char>(),\n               std::istreambuf_iterator<char>(f2.rdbuf()));", "  char a = 0;\n  char b = 0;\n  while (f1.get(a)) {\n    if (!f2.get(b) || a != b) {\n      return false;\n    }\n  }\n  return true;"),
(LI, "  stepsize_ = (last - first) / static_cast<T>(nsteps_);", "  auto const width = last - first;\n  stepsize_ = width / static_cast<T>(steps);"),
(LI, "  generate_n(std::back_inserter(retval), n, *this);\n  return retval;", "  auto gen = *this;\n  for (auto i = 0UL; i < n; i++) {\n    retval.push_back(gen());\n  }\n  return retval;"),
(LO, "  generate_n(std::back_inserter(retval), n, *this);\n  return retval;", "  auto gen = *this;\n  while (retval.size() < n) {\n    retval.push_back(*gen);\n    ++gen;\n  }\n  return retval;"),
(AP, "  return std::abs(lhs - rhs.value_) <=\n         std::max(rhs.abs_, std::abs(rhs.rel_ * rhs.value_));", "  auto const margin = std::max(std::abs(rhs.rel_ * rhs.value_), rhs.abs_);\n  return !(std::abs(lhs - rhs.value_) > margin);"),
(AP, "operator<=(double lhs, Approx const& rhs) -> bool\n{\n  return lhs < rhs.value_ || lhs == rhs;", "operator<=(double lhs, Approx const& rhs) -> bool\n{\n  return lhs == rhs || lhs < rhs.value_;"),
(AC, "  while (begin != end) {\n    acc.Add(*begin++);\n  }\n  return acc;", "  for (; begin != end; ++begin) {\n    acc.Add(*begin);\n  }\n  return acc;"),
(RN, "  for (auto i = 0UL; i < 2UL; i++) {\n    in >> sep;\n    if (sep != '/') {\n      in.setstate(std::ios_base::failbit);\n      return in;\n    }\n  }\n  in >> den;", "  auto sep2 = char{};\n  in >> sep;\n  in >> sep2;\n  if (sep != '/' || sep2 != '/') {\n    in.setstate(std::ios_base::failbit);\n    return in;\n  }\n  in >> den;"),
(RN, "  num_ = num_ / g;\n  den_ = den_ / g;", "  den_ /= g;\n  num_ /= g;"),
(RN, "  return RationalNum<G>(lhs.num_ * rhs.den_ - rhs.num_ * lhs.den_,\n                        lhs.den_ * rhs.den_);", "  auto const left = lhs.num_ * rhs.den_;\n  auto const right = rhs.num_ * lhs.den_;\n  return { left - right, lhs.den_ * rhs.den_ };"),
(RN, "  auto iss = std::istringstream{ str };\n  iss >> rhs;\n\n  if (iss.fail()) {\n    throw bwsl::exception::BadParsing{};\n  }", "  std::istringstream iss;\n  iss.str(str);\n  if (!(iss >> rhs)) {\n    throw bwsl::exception::BadParsing{};\n  }"),
(RN, "  out << rhs.num_ << \"//\" << rhs.den_;\n  return out;", "  return out << rhs.GetNum() << '/' << '/' << rhs.GetDen();"),
(RG, "  std::istringstream iss(text);\n\n  if (!(iss >> mt)) {\n    throw", "  std::istringstream iss(text);\n  iss >> mt;\n  if (iss.fail()) {\n    throw"),
(ES, "      : message_(\"Unknown correspondance of \" + value + \" for enum \" +         \\\n                 BOOST_PP_STRINGIZE(name))                                     \\\n    {                                                                          \\\n", "    {                                                                          \\\n      message_.append(\"Unknown correspondance of \").append(value);             \\\n      message_ += \" for enum \" BOOST_PP_STRINGIZE(name);                       \\\n"),
]
SETS["b"] = [
(HG, "  assert(coords.size() == dim_);\n  if (HasClosedBoundaries()) {\n    for (auto i = 0UL; i < dim_; i++) {\n      auto s = static_cast<long>(size_[i]);\n      while (coords[i] < 0) {\n        coords[i] += s;\n      }\n      while (coords[i] >= static_cast<long>(s)) {\n        coords[i] -= s;\n      }\n    }\n  }", "  if (HasOpenBoundaries()) {\n    return;\n  }\n  std::transform(coords.begin(), coords.end(), size_.begin(), coords.begin(), [](long c, size_t side) {\n    auto const s = static_cast<long>(side);\n    if (c < 0) {\n      c += s * ((-c + s - 1) / s);\n    }\n    if (c >= s) {\n      c -= s * (c / s);\n    }\n    return c;\n  });"),
(HG, "  for (auto i = 0UL; i < dim_; i++) {\n    if (coords[i] < 0L || static_cast<size_t>(coords[i]) >= size_[i]) {\n      return false;\n    }\n  }\n  return true;", "  return std::equal(coords.begin(), coords.end(), size_.begin(), [](long c, size_t s) { return static_cast<size_t>(c) < s && c >= 0; });"),
(HG, "  auto cb = GetCoordinates(b);\n  subtract_into(cb, GetCoordinates(a));\n\n  if", "  auto cb = GetCoordinates(b);\n  auto const ca = GetCoordinates(a);\n  std::transform(cb.begin(), cb.end(), ca.begin(), cb.begin(), std::minus<>{});\n\n  if"),
(MU, """  for (auto i = 0UL; i < dim; i++) {
    prod /= size[i];
    index += prod * static_cast<size_t>(a[i]);
  }
""", """  prod = 1UL;
  for (auto i = dim; i > 0UL; i--) {
    index += prod * static_cast<size_t>(a[i - 1]);
    prod *= size[i - 1];
  }
"""),
(MU, "    index = index % prod;", "    index -= static_cast<size_t>(result[i]) * prod;"),
(PA, "  return std::make_pair(i % maxval, i / maxval);", "  auto const q = std::ldiv(static_cast<long>(i), static_cast<long>(maxval));\n  return std::make_pair(static_cast<std::size_t>(q.rem), static_cast<std::size_t>(q.quot));"),
(MU, "  std::transform(left.begin(),\n                 left.end(),\n                 right.begin(),\n                 left.begin(),\n                 std::plus<typename Container::value_type>());\n  return left;", "  auto r = right.begin();\n  for (auto& x : left) {\n    x += *r++;\n  }\n  return left;"),
(MU, "  std::transform(left.begin(),\n                 left.end(),\n                 right.begin(),\n                 left.begin(),\n                 std::minus<typename Container::value_type>());\n  return left;", "  auto l = left.begin();\n  auto r = right.begin();\n  while (l != left.end()) {\n    *l = *l - *r;\n    ++l;\n    ++r;\n  }\n  return left;"),
(MU, "  return (1 - t) * a + t * b;", "  auto const s = 1 - t;\n  return t * b + s * a;"),
(MU, "  if (x == 0.0) {\n    return 0.5;\n  }\n  if (x > 0.0) {\n    return 1.0;\n  }\n\n  return 0.0;", "  return x > 0.0 ? 1.0 : x == 0.0 ? 0.5 : 0.0;"),
(MU, "  return std::upper_bound(it, ++to, value);", "  ++to;\n  return std::partition_point(it, to, [&](auto const& x) { return !(value < x); });"),
(MU, "  typename T::iterator choice =\n    std::upper_bound(comul.begin(), comul.end(), rnd);\n\n  return static_cast<SizeType>(std::distance(comul.begin(), choice));", "  auto k = SizeType{ 0 };\n  while (k < comul.size() && !(rnd < comul[k])) {\n    k++;\n  }\n  return k;"),
(MU, "  return std::accumulate(\n    v.begin(), v.end(), static_cast<T>(1), std::multiplies<T>());", "  auto r = static_cast<T>(1);\n  for (auto x : v) {\n    r *= x;\n  }\n  return r;"),
(MU, "  auto d = typename Container::value_type{ 0 };\n  for (auto x : v) {\n    d += square(x);\n  }\n  return sqrt(d);", "  return sqrt(sum_squared<Container, typename Container::value_type>(v));"),
(MU, "  T res = 1;\n\n  if (k > n) {\n    return 0;\n  }\n", "  if (n < k) {\n    return 0;\n  }\n\n  T res{ 1 };\n"),
(MU, "  return get_gcd(b, a % b);", "  auto const rest = static_cast<T>(a % b);\n  return rest == 0 ? b : get_gcd<T>(b, rest);"),
(B, "      p[i] += coords[j] * 2 * M_PI * pivectors_[i + j * dim_];", "      auto const c = coords[j] * 2 * M_PI;\n      p[i] += c * pivectors_[j * dim_ + i];"),
(B, "  auto p = coords_t(dim_, 0.0);\n  for (auto i = 0UL; i < dim_; i++) {\n    p[i] = second[i] - first[i];\n  }\n\n  return GetRealSpace(p);", "  auto p = second;\n  subtract_into(p, first);\n  return GetRealSpace(p);"),
(B, "  for (auto i = 0UL; i < dim_; i++) {\n    for (auto j = 0UL; j < dim_; j++) {\n      p[i] += coords[j] * pvectors_[i + j * dim_];\n    }\n  }", "  for (auto j = 0UL; j < dim_; j++) {\n    for (auto i = 0UL; i < dim_; i++) {\n      p[i] += coords[j] * pvectors_[i + j * dim_];\n    }\n  }"),
(L, "  if (HasOpenBoundaries()) {\n    return sqrt(sum_squared<realvec_t, double>(GetVector(a, b)));\n  }\n  auto s = GetMappedSite(a, b);\n  return distance_[s];", "  if (HasClosedBoundaries()) {\n    return distance_[GetMappedSite(a, b)];\n  }\n  return l2norm(GetVector(a, b));"),
(L, "  auto p = std::vector<realvec_t>{};\n  auto c0 = GetCoordinates(0);\n  for (auto i = 0UL; i < GetNumSites(); i++) {\n    auto x = bravais.GetVector(c0, GetCoordinates(i));\n    p.push_back(x);\n  }\n\n  return p;", "  auto p = std::vector<realvec_t>(GetNumSites());\n  for (auto i = 0UL; i < GetNumSites(); i++) {\n    p[i] = bravais.GetRealSpace(GetCoordinates(i));\n  }\n\n  return p;"),
(L, "    for (auto k = 0UL; k < ci.size(); k++) {\n      auto ck = coords_t(GetDim(), 0);\n      ck[k] = ci[k];\n      auto gk = bravais.GetReciprocalSpace(ck);\n      for (auto& g : gk) {\n        g /= GetSize()[k];\n      }\n      sum_into(kappa, gk);\n    }\n    p.push_back(kappa);", "    auto unit = coords_t(GetDim(), 0);\n    for (auto k = 0UL; k < ci.size(); k++) {\n      unit[k] = ci[k];\n      auto const gk = bravais.GetReciprocalSpace(unit);\n      unit[k] = 0;\n      for (auto q = 0UL; q < GetDim(); q++) {\n        kappa[q] += gk[q] / static_cast<double>(GetSize()[k]);\n      }\n    }\n    p.push_back(std::move(kappa));"),
(L, "      if (HasClosedBoundaries() || IsOnGrid(cj)) {\n        EnforceBoundaries(cj);\n        nn.push_back(GetIndex(cj));\n      }", "      if (HasClosedBoundaries()) {\n        EnforceBoundaries(cj);\n      } else if (!IsOnGrid(cj)) {\n        continue;\n      }\n      nn.emplace_back(GetIndex(cj));"),
(L, "    sk[i] += mult * (square(im) + square(re)) / static_cast<double>(square(n));", "    auto const norm = static_cast<double>(n * n);\n    auto const power = im * im + re * re;\n    sk[i] += mult * power / norm;"),
(L, "  auto sk = std::vector<double>(n, 0.0);\n\n  if (!HasOpenBoundaries()) {\n    AccumulateSk(occupations, sk, mult);\n  }\n\n  return sk;", "  auto sk = realvec_t(n);\n  AccumulateSk(occupations, sk, mult);\n  return sk;"),
(L, "    fmt::print(out, \"{},{},{}\", bwsl::pairs::GetPairIndex(a, b, nsites), a, b);", "    out << bwsl::pairs::GetPairIndex(a, b, nsites) << \",\" << a << ',';\n    fmt::print(out, \"{}\", b);"),
(KA, "auto Mean() const -> double { return sum_ / count_; };", "auto Mean() const -> double { return Sum() / static_cast<double>(Count()); };"),
(KA, "  sum_ = 0.0;\n  c_ = 0.0;\n  count_ = 0.0;", "  *this = KahanAccumulator{};"),
(KW, "  double delta = x - mean_;\n  mean_ += delta / count_;\n  double delta2 = x - mean_;\n  m2_ += delta * delta2;", "  auto const before = x - mean_;\n  mean_ += before / static_cast<double>(count_);\n  m2_ += before * (x - mean_);"),
(KW, "  return StandardDeviation(corrected) / std::sqrt(Count());", "  auto const n = static_cast<double>(count_);\n  return std::sqrt(Variance(corrected)) / std::sqrt(n);"),
(WA, "    double oldmean = mean_;\n    mean_ += (w / sum_weights_) * (m - oldmean);\n    m2_ += w * (m - oldmean) * (m - mean_);", "    auto const delta = m - mean_;\n    mean_ += (w / sum_weights_) * delta;\n    m2_ += w * delta * (m - mean_);"),
(NI, "  auto ccount = corrected ? count_ - 1UL : count_;\n\n  return ScaledVariance() / static_cast<double>(ccount);", "  auto n = static_cast<double>(count_);\n  if (corrected) {\n    n -= 1.0;\n  }\n  return ScaledVariance() / n;"),
(HA, "  for (auto& a : acc_) {\n    a.Reset();\n  }\n  count_ = 0UL;", "  count_ = 0UL;\n  acc_.assign(nbins_, bwsl::accumulators::NeumaierAccumulator{});"),
(HA, "  auto r = std::vector<double>(nbins_, 0.0);\n\n  for (auto i = 0UL; i < nbins_; i++) {\n    r[i] = GetResult(i);\n  }\n\n  return r;", "  auto r = std::vector<double>{};\n  auto const n = static_cast<double>(count_);\n  for (auto const& a : acc_) {\n    r.push_back(a.Count() == 0UL ? 0.0 : a.Sum() / n);\n  }\n  return r;"),
(MS, "  var += 1UL;\n  proposedflag_ = true;", "  proposedflag_ = true;\n  var++;"),
(MS, "  proposed_ = 0UL;\n  accepted_ = 0UL;\n  rejected_ = 0UL;\n  impossible_ = 0UL;\n  proposedflag_ = false;\n  prob_.Reset();", "  *this = MoveStats(std::move(name_));"),
(OG, "  auto count = accumulator_.empty() ? 0UL : accumulator_.begin()->second.Count();\n  for (auto& [index, acc] : accumulator_) {\n    fmt::print(out, \"{:.{}e},\", acc.Mean(), precision);\n    acc.Reset();\n  }\n  fmt::print(out, \"{}\", count);\n  fmt::print(out, \"\\n\");", "  auto count = 0UL;\n  if (!accumulator_.empty()) {\n    count = accumulator_.begin()->second.Count();\n  }\n  out << std::scientific << std::setprecision(static_cast<int>(precision));\n  for (auto const& entry : accumulator_) {\n    out << entry.second.Mean() << ',';\n  }\n  out << count << '\\n';\n  for (auto& entry : accumulator_) {\n    entry.second.Reset();\n  }"),
(OG, "// std\n", "// std\n#include <iomanip>\n"),
(OG, "  for (auto i : indices) {\n    accumulator_.try_emplace(i);\n  }", "  for (auto const& i : indices) {\n    AddObservable(i);\n  }"),
(OG, "  accumulator_.try_emplace(key);\n  return *this;", "  if (accumulator_.find(key) == accumulator_.end()) {\n    accumulator_.emplace(key, accumulators::KahanAccumulator{});\n  }\n  return *this;"),
(FU, "  return equal(std::istreambuf_iterator<char>(f1.rdbuf()),\n               std::istreambuf_iterator<char>(),\n               std::istreambuf_iterator<char>(f2.rdbuf()));", "  char a[256];\n  char b[256];\n  do {\n    f1.read(a, sizeof(a));\n    f2.read(b, sizeof(b));\n    if (f1.gcount() != f2.gcount() || !std::equal(a, a + f1.gcount(), b)) {\n      return false;\n    }\n  } while (f1 && f2);\n  return true;"),
(LI, "  LinSpace<T> tmp(*this);\n  tmp.current_value_ = first_;\n  tmp.step_ = 0;\n  return tmp;", "  return LinSpace<T>(first_, last_, nsteps_);"),
(LI, "  T retval = current_value_;\n  operator++();\n  return retval;", "  auto const old = (*this)++;\n  return old.current_value_;"),
(LO, "  T retval = current_value_;\n  operator++();\n  return retval;", "  auto const value = **this;\n  ++*this;\n  return value;"),
(AP, "operator<(double lhs, Approx const& rhs) -> bool\n{\n  return lhs < rhs.value_ && lhs != rhs;", "operator<(double lhs, Approx const& rhs) -> bool\n{\n  return !(lhs == rhs) && rhs.value_ > lhs;"),
(AC, "  while (begin != end) {\n    acc.Add(*begin++);\n  }\n  return acc;", "  std::for_each(begin, end, [&acc](auto const& x) { acc.Add(x); });\n  return acc;"),
(AC, "namespace bwsl {\n", "#include <algorithm>\nnamespace bwsl {\n"),
(RN, "  auto g = get_gcd(num_, den_);\n  // keep the denominator positive\n  if ((g < 0) != (den_ < 0)) {\n    g = -g;\n  }\n  num_ = num_ / g;\n  den_ = den_ / g;", "  auto const g = get_gcd(num_, den_);\n  num_ /= g;\n  den_ /= g;\n  if (den_ < 0) {\n    num_ = -num_;\n    den_ = -den_;\n  }"),
(RN, "  return lhs.num_ * rhs.den_ < rhs.num_ * lhs.den_;", "  auto const cross = rhs.num_ * lhs.den_;\n  return cross > lhs.num_ * rhs.den_;"),
(RN, "  return RationalNum<G>(lhs.num_ * rhs, lhs.den_);", "  return lhs * RationalNum<G>(rhs, 1);"),
(RN, "  return RationalNum<G>(lhs.num_ + rhs * lhs.den_, lhs.den_);", "  auto r = lhs;\n  r.num_ += rhs * r.den_;\n  return r;"),
(RN, "  auto oss = std::ostringstream{};\n  oss << rhs;\n  return oss.str();", "  return std::to_string(rhs.GetNum()) + \"//\" + std::to_string(rhs.GetDen());"),
]
def main():
    s = sys.argv[1]; d = f"/tmp/ref/{s}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/include", d + "/include"); bad = 0
    for f, o, n in SETS[s]:
        p = f"{d}/include/bwsl/{f}"; t = open(p).read()
        if t.count(o) != 1: print(f"edit matches {t.count(o)} times in {f}: {o[:70]!r}"); bad = 1; continue
        open(p, "w").write(t.replace(o, n))
    if bad: sys.exit(1)
    import json
    for i in sys.argv[2:] or [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]:
        r = subprocess.run(["python3", V + "/vp.py", i, "-v"], capture_output=True, text=True, env=dict(os.environ, VP_REPO=d)); t = r.stdout.strip().splitlines()
        print(i, "rc", r.returncode, "INCOMPLETE" if "INCOMPLETE" in r.stdout + r.stderr else "", t[-1][:150] if t else r.stderr[-400:], flush=True)
        if r.returncode or "INCOMPLETE" in r.stdout: print("   ", "\n    ".join(x[:300] for x in (r.stdout + r.stderr).splitlines() if "INCOMPLETE" in x or "VIOLATION" in x or "error" in x)[:1500], flush=True)
if __name__ == "__main__": main()
