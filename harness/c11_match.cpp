// C11: matching.  The published condition, the target tables, and the matcher.
#include <chia/phase1.hpp>
#include "vc.h"
using namespace phase1;
static const u32 B = 119, C = 127, BC = B * C;
// (yr%BC)/C - (yl%BC)/C = m (mod B) and (yr%BC)%C - (yl%BC)%C = (2m+parity)^2 (mod C), 0 <= m < 64
static bool cond_m(u32 p, u32 l, u32 r, u32 m) { return (r / C + B - l / C) % B == m % B && (r % C + C - l % C) % C == ((2 * m + p) * (2 * m + p)) % C; }
static u32 target(u8 p, u16 l, u16 m) { u16 j = l / int(C); return ((j + m) % int(B)) * int(C) + (((2 * m + p) * (2 * m + p) + l) % int(C)); }

// lemma: r is the m-th target of l iff the condition holds for m (constants of the real code)
VC_HARNESS(C11_condition) {
	u32 m = vc_case("m", 0, 63), p = vc_case("parity", 0, 1), l = vc_range("l", 0, BC - 1), r = vc_range("r", 0, BC - 1);
	vc_assert(u32(kB) == B && u32(kC) == C && u32(kBC) == BC && kExtraBitsPow == 64, "published constants");
	u32 t = target(p, l, m);
	vc_assert(t < BC, "target in range");
	vc_assert((t == r) == cond_m(p, l, r, m), "target set is the matching condition");
	vc_cover("cond");
}
// load_tables: every cell
static u64 g_p, g_i, sp_, si_, sm_;
static void cell(u64 p, u64 i, u64 m) {       // the watched cell is already written
	if(sp_ < p || (sp_ == p && (si_ < i || (si_ == i && (sm_ + 1 == m || sm_ + 1 < m)))))
		vc_inv(L_targets[sp_][si_][sm_] == u16(target(sp_, si_, sm_)), "targets written so far");
}
static void inv_p(u64 n) { vc_inv(n <= 2, "parity"); g_p = n; cell(n, 0, 0); }
static void inv_i(u64 n) { vc_inv(n <= BC, "i"); g_i = n; cell(g_p, n, 0); }
static void inv_m(u64 n) { vc_inv(n <= 64, "m"); cell(g_p, g_i, n); }
VC_HARNESS(C11_load_tables) {
	sp_ = vc_case("p", 0, 1); si_ = vc_range("i", 0, BC - 1); sm_ = vc_range("m", 0, 63);
	if(VC_SYMBOLIC) vc_havoc_region(&L_targets, 2, "0:2");
	vc_loop_now("load_tables", (void*)inv_p, 0); vc_loop_now("load_tables", (void*)inv_i, 0); vc_loop_now("load_tables", (void*)inv_m, 0);
	load_tables();
	vc_assert(L_targets[sp_][si_][sm_] == target(sp_, si_, sm_), "L_targets[parity][i][m] is the m-th target of residue i");
	vc_cover("tables");
}
// lemma: the 64 targets of one residue are pairwise different (so a pair is reported at most once)
VC_HARNESS(C11_targets_distinct) {
	u32 p = vc_case("parity", 0, 1), l = vc_range("l", 0, BC - 1), a = vc_range("a", 0, 63), b = vc_range("b", 0, 63);
	vc_assume(a < b);
	vc_assert(target(p, l, a) / C != target(p, l, b) / C, "targets of one residue differ");
	vc_cover("distinct");
}

#if VC_SYMBOLIC
// ---- the matcher.  R entries of one group are sorted by y, so those of residue r are the indices [FIRST(r), FIRST(r)+CNT(r)).
// The pairs are enumerated as triples (left index a, target number m, d-th right entry of that residue); IDX(a, m) is the
// number of triples before (a, m, 0).  Loop facts about one residue are shown for an arbitrary residue q and used for all.
typedef entry_2 E; static u64 nL, nR, gg, par, q, CI, wa, wm, wd, l_now, i_now; static E *Lb, *Rb; static FxMatcher<E>* M; static u16 *oL, *oR; static u64 g_cn;
#ifdef CHIA_K34
static const char* ES = "0:8,8:8,16:2,24:8,32:1"; static const char* MS = "0:8,8:8,16:2,24:8,32:1,40:8,48:8,56:2,64:8,72:1,80:8,88:2";
#else
static const char* ES = "0:8,8:4,12:2,16:8"; static const char* MS = "0:8,8:4,12:2,16:8,24:8,32:4,36:2,40:8,48:4,52:2";
#endif
static u64 LY(u64 i) { return vc_uf1("ly", i); } static u64 RY(u64 i) { return vc_uf1("ry", i); } static u64 FIRST(u64 r) { return vc_uf1("first", r); } static u64 CNT(u64 r) { return vc_uf1("cnt", r); } static u64 DIST(u64 n) { return vc_uf1("dist", n); } static u64 IDX(u64 a, u64 m) { return vc_uf2("idx", a, m); }
static void defr(u64 r) { vc_define((FIRST(r) <= nR) & (CNT(r) <= nR) & (FIRST(r) + CNT(r) <= nR), "run of equal residues"); }
static void atR(u64 n) { vc_define((Rb[n].y == (gg + 1) * BC + RY(n)) & (RY(n) < BC), "right group"); }
static void atL(u64 n) { vc_define((Lb[n].y == gg * BC + LY(n)) & (LY(n) < BC), "left group"); }
static void runs(u64 n, u64 r) { vc_define((RY(n) == r) == ((FIRST(r) <= n) & (n < FIRST(r) + CNT(r))), "run of equal residues"); }
static u64 TG(u64 a, u64 m) { return L_targets[par][LY(a)][m]; }
static u64 cnt_(u64 r) { return M->rmap.d[r].count; } static u64 pos_(u64 r) { return M->rmap.d[r].pos; }
static void inv_clean(u64 n) { vc_inv(((n <= CI) & (CI < g_cn)) | (cnt_(q) == 0), "counts of seen residues are zero"); vc_inv(n <= g_cn, "index"); if(vc_inv_assuming()) { vc_define(M->rmap_clean.d[n] < BC, "residues used before"); vc_define(M->rmap_clean.d[CI] == q || cnt_(q) == 0, "every residue in use is listed"); } }
static bool seen(u64 n, u64 r) { u64 F = FIRST(r), C = CNT(r), c = cnt_(r); return ((n > F) | (c == 0)) & ((n <= F) | (n - F > C) | (c == n - F)) & ((n <= F) | (n - F <= C) | (c == C)) & ((c == 0) | (pos_(r) == F)); }
static bool listed(u64 n, u64 r) { u64 F = FIRST(r); return (n <= F) | (CNT(r) == 0) | ((DIST(F) < DIST(n)) & (M->rmap_clean.d[DIST(F) & 0xffff] == r)); }
static void inv_R(u64 n) {
	vc_inv(n <= nR, "index"); defr(q); vc_define(DIST(0) == 0, "distinct residues so far"); vc_inv((DIST(n) <= n) & (M->rmap_clean.n == DIST(n)), "residues seen are listed once"); vc_inv(seen(n, q), "count and first position of each residue"); vc_inv(listed(n, q), "every residue in use is listed");
	if(n < nR) { atR(n); runs(n, q); u64 c = RY(n); runs(n, c); defr(c); vc_define(DIST(n + 1) == DIST(n) + (FIRST(c) == n), "distinct residues so far"); if(vc_inv_assuming()) vc_assume(seen(n, c)); }
}
static bool valid; static bool done3(u64 a, u64 m, u64 d, u64 acc) { if(!valid) return true; u64 w = IDX(wa, wm) + wd; bool past = (wa < a) | ((wa == a) & ((wm < m) | ((wm == m) & (wd < d)))); return !past | ((w < acc) & (oL[w & 0x3fff] == wa) & (oR[w & 0x3fff] == FIRST(TG(wa, wm)) + wd)); }
static void stay() { vc_inv(seen(nR, q), "counts unchanged"); }
static void inv_L(u64 n, u64 acc) { vc_inv(n <= nL, "index"); l_now = n; vc_define(IDX(0, 0) == 0, "pairs so far"); vc_inv((acc == IDX(n, 0)) & (acc <= BC), "pairs so far"); vc_inv(done3(n, 0, 0, acc), "pairs are reported"); stay(); if(n < nL) { atL(n); vc_inv(Lb[n].y - (Rb[0].y / u64(BC) * u64(BC) - u64(BC)) == LY(n), "residue of the left entry"); vc_define(IDX(n + 1, 0) == IDX(n, 64), "pairs so far"); } }
static void inv_I(u64 i, u64 acc) { u64 l = l_now; vc_inv(i <= 64, "index"); i_now = i; vc_inv((acc == IDX(l, i)) & (acc <= BC), "pairs so far"); vc_inv(done3(l, i, 0, acc), "pairs are reported"); stay();
	if(i < 64) { u64 t = TG(l, i); vc_define(t < BC, "targets"); defr(t); vc_define(IDX(l, i + 1) == IDX(l, i) + CNT(t), "pairs so far"); if(vc_inv_assuming()) vc_assume((IDX(l, i + 1) <= BC) & seen(nR, t)); } }
static void inv_J(u64 j) { u64 t = TG(l_now, i_now), acc = IDX(l_now, i_now) + j; vc_inv(j <= CNT(t), "index"); vc_inv(done3(l_now, i_now, j, acc), "pairs are reported"); stay(); }
VC_HARNESS(C11_find_ex) {
	u64 cs = vc_case("case", 0, 4); nL = vc_range("nL", 0, 65535); nR = vc_range("nR", 0, 65535); if(cs == 4) vc_assume((nL == 0) | (nR == 0)); else vc_assume((nL > 0) & (nR > 0)); par = cs & 1; gg = vc_range("half", 0, 1u << 24) * 2 + par; q = vc_range("q", 0, BC - 1); CI = vc_range("CI", 0, 65535);
	std::vector<E> L, R; Lb = L.d = (E*)vc_array("L", 65536, sizeof(E), ES); L.n = nL; Rb = R.d = (E*)vc_array("R", 65536, sizeof(E), ES); R.n = nR;
	FxMatcher<E>* m = (FxMatcher<E>*)new u64[16]; new(&m->rmap) std::vector<FxMatcher<E>::rmap_item>(); new(&m->rmap_clean) std::vector<u16>(); M = m;
	m->rmap.d = (FxMatcher<E>::rmap_item*)vc_array("rmap", BC, 4, "0:2,2:2"); m->rmap.n = BC; m->rmap_clean.d = (u16*)vc_array("clean", 1u << 17, 2, "0:2"); u64 cn = vc_range("listed", 0, 65535); m->rmap_clean.n = g_cn = cn; vc_assume((cnt_(q) == 0) | ((CI < cn) & (m->rmap_clean.d[CI] == q)));
	oL = (u16*)vc_array("idx_L", BC + 1300, 2, "0:2"); oR = (u16*)vc_array("idx_R", BC + 1300, 2, "0:2"); vc_havoc_region(&L_targets, 2, "0:2");
	wa = vc_range("a", 0, 65535); wm = vc_range("m", 0, 63); wd = vc_range("d", 0, 65535); atL(0); atR(0); valid = cs < 2; if(valid) { vc_assume(wa < nL); atL(wa); vc_define(TG(wa, wm) < BC, "targets"); defr(TG(wa, wm)); vc_assume(wd < CNT(TG(wa, wm))); }
	if(cs < 4) { u64 gr = Rb[0].y / u64(BC), gl = Lb[0].y / u64(BC); vc_assert(gr == gg + 1, "group of the right entries"); vc_assert(gl == gg, "group of the left entries"); vc_assert(gl % 2 == par, "parity"); }
	vc_loop_now("find_matches_ex", (void*)inv_clean, 0); vc_loop_now("find_matches_ex", (void*)inv_R, 0); vc_loop_now("find_matches_ex", (void*)inv_L, 1); vc_loop_now("find_matches_ex", (void*)inv_I, 1); vc_loop_now("find_matches_ex", (void*)inv_J, 0);
	int n = m->find_matches_ex(L, R, oL, oR);
	if(cs == 4) { vc_assert(n == 0, "no pairs with an empty group"); vc_cover("empty"); return; }
	vc_assert(u64(n) == IDX(nL, 0), "number of pairs"); if(valid) { u64 w = IDX(wa, wm) + wd; vc_assert(w < u64(n) && oL[w] == wa && oR[w] == FIRST(TG(wa, wm)) + wd, "each left entry is paired with each right entry at each of its targets"); vc_cover("pair"); }
	vc_assert(cnt_(q) == 0 || (DIST(FIRST(q)) < m->rmap_clean.n && m->rmap_clean.d[DIST(FIRST(q))] == q), "ready for the next pair of groups"); vc_cover("ex");
}
static u64 f_b, f_by, f_n, f_W, f_base, f_begin; static std::vector<match_t<E>>* f_out; static u64 A(u64 i) { return vc_uf1("a", i); } static u64 Bb(u64 i) { return vc_uf1("b", i); } static u64 KC(u64 i) { return vc_uf1("kept", i); } static bool kept(u64 i) { return f_begin + A(i) < (u64(1) << PMAX); }
static int ex_contract(FxMatcher<E>*, const std::vector<E>* l, const std::vector<E>* r, u16* il, u16* ir) { vc_assert(l->d == Lb && r->d == Rb && l->n == nL && r->n == nR, "left and right group"); oL = il; oR = ir; vc_havoc_region(il, 2, "0:2"); vc_havoc_region(ir, 2, "0:2"); f_n = vc_range("count", 0, 15113); return f_n; }
static bool row(u64 i) { match_t<E>& m = f_out->d[f_base + KC(i)]; E &l = Lb[A(i)], &r = Rb[Bb(i)]; u64 lm, rm, ml, mr; __builtin_memcpy(&lm, l.meta.data(), 8); __builtin_memcpy(&rm, r.meta.data(), 8); __builtin_memcpy(&ml, m.left.meta.data(), 8); __builtin_memcpy(&mr, m.right.meta.data(), 8);
	return (m.left.y == l.y) & (m.left.pos == l.pos) & (ml == lm) & (m.right.y == r.y) & (m.right.pos == r.pos) & (mr == rm) & (u64(m.pos) == f_begin + A(i)) & (u64(m.off) == ((Bb(i) + (nL - A(i))) & 0xffff)); }
static void at(u64 n) { vc_define((oL[n] == A(n)) & (oR[n] == Bb(n)) & (A(n) < nL) & (Bb(n) < nR), "pairs found"); vc_define(KC(n + 1) == KC(n) + kept(n), "pairs kept"); }
static void inv_out(u64 n) { vc_inv(n <= f_n, "index"); vc_define(KC(0) == 0, "pairs kept"); vc_inv((KC(n) <= n) & (f_out->n == f_base + KC(n)), "pairs kept so far"); if(f_W < n) { vc_define((A(f_W) < nL) & (Bb(f_W) < nR), "pairs found"); vc_define(KC(f_W + 1) == KC(f_W) + kept(f_W), "pairs kept"); vc_inv((KC(f_W) <= f_W) & (KC(f_W + 1) <= KC(n)), "order"); if(kept(f_W)) vc_inv(row(f_W), "pair copied with position and offset"); } vc_inv((f_base == 0) | (f_out->d[f_b].left.y == f_by), "earlier results kept"); if(n < f_n) at(n); }
VC_HARNESS(C11_find_matches) {
	nL = vc_range("nL", 1, 65535); nR = vc_range("nR", 1, 65535); std::vector<E> L, R; Lb = L.d = (E*)vc_array("L", 65536, sizeof(E), ES); L.n = nL; Rb = R.d = (E*)vc_array("R", 65536, sizeof(E), ES); R.n = nR;
	f_begin = vc_range("begin", 0, u64(1) << 36); f_W = vc_range("W", 0, 15113); f_base = vc_range("before", 0, 1u << 20); std::vector<match_t<E>> out; out.d = (match_t<E>*)vc_array("out", 1u << 22, sizeof(match_t<E>), MS); out.n = f_base; f_out = &out;
	u64 b = vc_range("earlier", 0, 1u << 20); vc_assume(b < f_base | f_base == 0); u64 by = out.d[b].left.y; f_b = b; f_by = by;
	FxMatcher<E>* m = (FxMatcher<E>*)new u64[16]; vc_replace("find_matches_ex", (void*)ex_contract); vc_loop("find_matches\\(", (void*)inv_out, 0);
	int n = m->find_matches(f_begin, L, R, out); vc_assert(u64(n) == f_n, "number of pairs found"); vc_assert(out.size() == f_base + KC(f_n), "pairs inside the position range are reported, each once"); if(f_W < f_n) { if(kept(f_W)) { vc_assert(row(f_W), "both entries, position of the left one and distance to the right one"); vc_cover("match"); } }
	if(f_base) vc_assert(out.d[b].left.y == by, "earlier results kept");
}
#endif
#if !VC_SYMBOLIC
// matcher on random groups (bounded cross-check of the unbounded contract): arbitrary duplicates, stale state, PMAX limit
VC_BOUNDED(C11_find_matches_native) {
	static bool init = (initialize(), true); (void)init;
	static FxMatcher<entry_2> M;
	u64 g = vc_range("group", 0, (1ull << 24)), big = vcn::rnd() % 32 == 0 ? 3000 : 60, nl = vc_range("nl", 0, big == 60 ? 60 : 12), nr = vc_range("nr", 0, big);
	u64 start = vcn::rnd() % 4 ? vc_range("start", 0, (1ull << PMAX) - 1) : (1ull << PMAX) - nl / 2;
	std::vector<entry_2> L(nl), R(nr); u32 p = g % 2; std::vector<u32> lr, rr;
	for(auto& e : L) lr.push_back(vc_range("l", 0, BC - 1));
	for(auto& e : R) { u64 c = vcn::rnd() % 8; u32 v = vc_range("r", 0, BC - 1); if(c < 5 && nl) v = target(p, lr[vcn::rnd() % nl], vcn::rnd() % 64); if(c == 5 && rr.size()) v = rr.back(); rr.push_back(v); }
	std::sort(lr.begin(), lr.end()); std::sort(rr.begin(), rr.end());
	for(u64 i = 0; i < nl; ++i) { L[i].y = g * BC + lr[i]; L[i].pos = i; for(auto& m : L[i].meta) m = i; }
	for(u64 i = 0; i < nr; ++i) { R[i].y = (g + 1) * BC + rr[i]; R[i].pos = 1000 + i; for(auto& m : R[i].meta) m = i + 100; }
	std::vector<match_t<entry_2>> out(3); 
	int n = M.find_matches(start, L, R, out);
	std::vector<std::pair<u64, u64>> want, got; u64 all = 0;
	for(u64 i = 0; i < nl; ++i) for(u64 j = 0; j < nr; ++j) { bool ok = false; for(u32 m = 0; m < 64; ++m) ok = ok || cond_m(p, lr[i], rr[j], m); if(ok) { ++all; if(start + i < (1ull << PMAX)) want.push_back({i, j}); } }
	vc_assert(u64(n) == all, "number of matches reported");
	vc_assert(out.size() >= 3, "earlier results kept");
	for(u64 i = 3; i < out.size(); ++i) {
		auto& m = out[i]; u64 l = m.left.pos, r = m.right.pos - 1000;
		vc_assert(l < nl && r < nr && m.left.y == L[l].y && m.right.y == R[r].y && m.left.meta == L[l].meta && m.right.meta == R[r].meta, "matched entries carried over");
		vc_assert(u64(m.pos) == start + l, "match position is the left entry's table position");
		vc_assert(u64(m.off) == nl - l + r, "match offset is the distance to the right entry");
		got.push_back({l, r});
	}
	std::sort(got.begin(), got.end());
	vc_assert(got == want, "exactly the matching pairs, each once");
}
#endif
