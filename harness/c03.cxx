// C03 excitation phases against second-quantised operators
#include "ref.hpp"
#include <macis/sd_operations.hpp>

using pbt::Src;
template <size_t N> using IC = std::integral_constant<size_t, N>;
template <size_t N> using BS = std::bitset<N>;

// operators on a single string; parity of set bits below p
template <size_t N> int par(const BS<N>& s, size_t p) { size_t c = 0; for(size_t i = 0; i < p; ++i) c += s[i]; return (c & 1) ? -1 : 1; }
template <size_t N> int ann(BS<N>& s, size_t p) { if(!s[p]) return 0; int g = par(s, p); s.reset(p); return g; }
template <size_t N> int cre(BS<N>& s, size_t p) { if(s[p]) return 0; int g = par(s, p); s.set(p); return g; }

template <size_t N>
BS<N> gen_state(Src& S, size_t norb) {
  BS<N> b;
  int mode = S.below(3);
  for(size_t i = 0; i < norb; ++i) b[i] = mode == 0 ? S.below(2) : mode == 1 ? S.below(4) == 3 : S.below(4) != 0;
  return b;
}
// pick k distinct positions with the wanted occupation, forcing if needed
template <size_t N>
std::vector<size_t> pickpos(Src& S, BS<N>& b, size_t norb, size_t k, bool occ, std::vector<size_t> avoid) {
  std::vector<size_t> r;
  while(r.size() < k) {
    size_t p = S.edgy(0, norb - 1);
    while(std::find(avoid.begin(), avoid.end(), p) != avoid.end()) p = (p + 1) % norb;
    b[p] = occ;
    r.push_back(p);
    avoid.push_back(p);
  }
  return r;
}
template <class F>
void any_width(Src& S, F f) {
  switch(S.below(6)) {
    case 0: return f(IC<8>{});
    case 1: return f(IC<16>{});
    case 2: return f(IC<32>{});
    case 3: return f(IC<64>{});
    case 4: return f(IC<128>{});
    default: return f(IC<256>{});
  }
}

PBT(singles, 60000, 600000, "an electron sits between the two orbitals") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.edgy(2, N);
    auto ket = gen_state<N>(S, norb);
    size_t o = pickpos(S, ket, norb, 1, true, {})[0];
    size_t v = pickpos(S, ket, norb, 1, false, {o})[0];
    auto bra = ket;
    int sg = ann(bra, o);
    sg *= cre(bra, v);
    size_t between = 0;
    for(size_t i = std::min(o, v) + 1; i < std::max(o, v); ++i) between += ket[i];
    S.note("N=%zu ket=%s %zu->%zu sign=%d", N, ket.to_string().c_str(), o, v, sg);
    S.nontrivial(between > 0);
    S.label(between % 2 ? "odd" : "even");
    S.label("N=" + std::to_string(N));
    auto ex = bra ^ ket;
    REQ(macis::single_excitation_sign(ket, (unsigned)v, (unsigned)o) == sg, "sign(ket,v,o)");
    REQ(macis::single_excitation_sign(ket, (unsigned)o, (unsigned)v) == sg, "sign(ket,o,v)");
    REQ(macis::single_excitation_sign(bra, (unsigned)v, (unsigned)o) == sg, "sign(bra,v,o)");
    REQ(macis::first_occupied_flipped(ket, ex) == o, "first_occupied_flipped(ket)");
    REQ(macis::first_occupied_flipped(bra, ex) == v, "first_occupied_flipped(bra)");
    auto [o1, v1, s1] = macis::single_excitation_sign_indices(bra, ket, ex);
    REQ(o1 == o && v1 == v, "indices %u %u", (unsigned)o1, (unsigned)v1);
    REQ(s1 == sg, "indices sign %g", (double)s1);
    auto [o2, v2, s2] = macis::single_excitation_sign_indices(ket, bra, ex);
    REQ(o2 == v && v2 == o && s2 == sg, "bra and ket exchanged");
  });
}

PBT(doubles, 60000, 600000, "an electron sits between orbitals involved, or the excitations cross") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.edgy(4, N);
    auto ket = gen_state<N>(S, norb);
    auto o = pickpos(S, ket, norb, 2, true, {});
    auto v = pickpos(S, ket, norb, 2, false, o);
    std::sort(o.begin(), o.end());
    std::sort(v.begin(), v.end());
    auto ex = BS<N>{};
    for(auto p : o) ex.flip(p);
    for(auto p : v) ex.flip(p);
    auto bra = ket ^ ex;
    size_t c = 0;
    for(size_t i = std::min(o[0], v[0]) + 1; i < std::max(o[1], v[1]); ++i) c += ket[i];
    S.note("N=%zu ket=%s %zu,%zu->%zu,%zu", N, ket.to_string().c_str(), o[0], o[1], v[0], v[1]);
    S.nontrivial(c > 1 || v[0] > o[1] || o[0] > v[1]);
    auto [o1, v1, o2, v2, s] = macis::doubles_sign_indices(bra, ket, ex);
    REQ((o1 == o[0] && o2 == o[1]) || (o1 == o[1] && o2 == o[0]), "occupied indices %u %u", (unsigned)o1, (unsigned)o2);
    REQ((v1 == v[0] && v2 == v[1]) || (v1 == v[1] && v2 == v[0]), "virtual indices %u %u", (unsigned)v1, (unsigned)v2);
    // sign of a+_v1 a_o1 a+_v2 a_o2 |ket>  (pairs as returned)
    auto t = ket;
    int w = ann(t, o2); w *= cre(t, v2); w *= ann(t, o1); w *= cre(t, v1);
    REQ(t == bra && w != 0, "operators do not connect bra and ket");
    REQ((double)s == w, "sign %g want %d for pairs %u->%u %u->%u", (double)s, w, (unsigned)o1, (unsigned)v1, (unsigned)o2, (unsigned)v2);
    REQ((double)macis::doubles_sign(bra, ket, ex) == w, "doubles_sign");
    auto [p1, q1, p2, q2, z] = macis::doubles_sign_indices(ket, bra, ex);
    auto u = bra;
    int y = ann(u, p2); y *= cre(u, q2); y *= ann(u, p1); y *= cre(u, q1);
    REQ(u == ket && y == (int)z, "bra and ket exchanged: sign %g want %d", (double)z, y);
  });
}

// opposite-spin double: product of the two spin phases is the phase of the full operator
PBT(mixed, 40000, 400000, "both spin excitations pass an electron") {
  auto go = [&](auto ic) {
    constexpr size_t H = ic;
    size_t norb = S.edgy(2, std::min<size_t>(H, 63));
    auto ka = gen_state<H>(S, norb), kb = gen_state<H>(S, norb);
    size_t oa = pickpos(S, ka, norb, 1, true, {})[0], va = pickpos(S, ka, norb, 1, false, {oa})[0];
    size_t ob = pickpos(S, kb, norb, 1, true, {})[0], vb = pickpos(S, kb, norb, 1, false, {ob})[0];
    ref::Det k;
    for(size_t i = 0; i < norb; ++i) { if(ka[i]) k.a |= 1ull << i; if(kb[i]) k.b |= 1ull << i; }
    ref::Det b = k;
    // a+_va a+_vb a_ob a_oa
    int s = ref::annihilate(b, oa, 0); s *= ref::annihilate(b, ob, 1); s *= ref::create(b, vb, 1); s *= ref::create(b, va, 0);
    auto ba = ka, bb = kb;
    ba.flip(oa).flip(va); bb.flip(ob).flip(vb);
    auto [o1, v1, s1] = macis::single_excitation_sign_indices(ba, ka, ba ^ ka);
    auto [o2, v2, s2] = macis::single_excitation_sign_indices(bb, kb, bb ^ kb);
    S.note("alpha %s %zu->%zu beta %s %zu->%zu", ka.to_string().c_str(), oa, va, kb.to_string().c_str(), ob, vb);
    size_t ca = 0, cb = 0;
    for(size_t i = std::min(oa, va) + 1; i < std::max(oa, va); ++i) ca += ka[i];
    for(size_t i = std::min(ob, vb) + 1; i < std::max(ob, vb); ++i) cb += kb[i];
    S.nontrivial(ca > 0 && cb > 0);
    REQ(o1 == oa && v1 == va && o2 == ob && v2 == vb, "indices");
    REQ((double)(s1 * s2) == s, "product of spin phases %g, operator phase %d", (double)(s1 * s2), s);
  };
  if(S.below(2)) go(IC<64>{}); else go(IC<32>{});
}
