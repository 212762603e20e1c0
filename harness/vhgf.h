// small finite fields and point counts (no repository code)
#ifndef VHGF_H
#define VHGF_H
#include <vector>
#include <utility>
namespace vh {
struct GF { long p, k, q; std::vector<long> ex, lg; // elements are base-p digit strings, x is primitive
  GF(long p_, long k_) : p(p_), k(k_) { q = 1; for (long i = 0; i < k; ++i) q *= p;
    for (long c = 1; c < q; ++c) { std::vector<long> m(k); long t = c; for (long i = 0; i < k; ++i) { m[i] = t % p; t /= p; } ex.assign(1, 1); long e = 1, top = q / p; // x^k = -m
      for (long s = 1; s < q; ++s) { if (k == 1) e = e * ((p - m[0]) % p) % p; else { long hi = e / top, lo = (e % top) * p, r = 0, pw = 1; for (long i = 0; i < k; ++i) { r += ((lo / pw) % p + hi * (p - m[i])) % p * pw; pw *= p; } e = r; } if (e <= 1) break; ex.push_back(e); }
      if (e == 1 && (long)ex.size() == q - 1) break; ex.clear(); }
    lg.assign(q, -1); for (long i = 0; i < (long)ex.size(); ++i) lg[ex[i]] = i; }
  long add(long a, long b) const { if (k == 1) return (a + b) % p; long r = 0, pw = 1; for (long i = 0; i < k; ++i) { r += ((a / pw) % p + (b / pw) % p) % p * pw; pw *= p; } return r; }
  long mul(long a, long b) const { return a && b ? ex[(lg[a] + lg[b]) % (q - 1)] : 0; }
  long pw(long a, long e) const { if (!e) return 1; return a ? ex[(lg[a] * e) % (q - 1)] : 0; } };
typedef std::vector<std::pair<std::vector<long>, long> > Terms;
// zeros of a homogeneous polynomial in projective space over GF(p^k)
inline long zeros(const Terms& t, long p, long k) { GF F(p, k); long n = t[0].first.size(), c = 0;
  for (long lead = 0; lead < n; ++lead) { std::vector<long> x(n, 0); x[lead] = 1; for (;;) { long s = 0; for (auto& m : t) { long v = ((m.second % p) + p) % p; if (!v) continue; for (long i = 0; i < n && v; ++i) if (m.first[i]) v = F.mul(v, F.pw(x[i], m.first[i])); s = F.add(s, v); } c += s == 0; long j = n - 1; while (j > lead && x[j] == F.q - 1) x[j--] = 0; if (j == lead) break; ++x[j]; } }
  return c; }
}
#endif
