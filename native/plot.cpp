// Creates a complete (small k) plot with the real phases 1-4 and checks every intermediate and final
// table against the independent reference.   plot WANT k seed threads logb logb3 read_chunk write_chunk
#include <chia/phase1.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include <chia/copy.h>
#include "ref.h"
#include <fstream>
#include <unistd.h>
#include <set>
static std::string WANT; static int fails = 0; static std::map<std::string, int> checked;
static bool chk(const char* prop, bool ok, const std::string& what) {
	checked[prop]++;
	if(ok) return true;
	if(WANT == "all" || WANT.find(prop) != std::string::npos) { if(fails++ < 10) printf("FAIL %s: %s\n", prop, what.c_str()); }
	else { static int n = 0; if(n++ < 5) printf("OTHER %s: %s\n", prop, what.c_str()); }
	return false;
}
static std::string S(uint64_t x) { return std::to_string(x); }
static std::vector<uint8_t> slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); return std::vector<uint8_t>((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
template<typename T> std::vector<T> load(const table_t& t, const char* prop) {
	auto b = slurp(t.file_name); std::vector<T> o;
	chk(prop, b.size() == t.num_entries * T::disk_size, "table file size " + S(b.size()) + " for " + S(t.num_entries) + " entries: " + t.file_name);
	for(size_t i = 0; (i + 1) * T::disk_size <= b.size(); ++i) { T e; memset(&e, 0, sizeof(e)); e.read(b.data() + i * T::disk_size); o.push_back(e); }
	return o;
}
typedef std::pair<uint64_t, uint64_t> PO;
int main(int argc, char** argv) {
	WANT = argv[1]; const int k = atoi(argv[2]); const uint64_t seed = atoll(argv[3]); const int nt = atoi(argv[4]), lb = atoi(argv[5]), lb3 = atoi(argv[6]);
	g_read_chunk_size = atoi(argv[7]); g_write_chunk_size = atoi(argv[8]);
	std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
	phase1::input_t in; in.k = k;
	for(int i = 0; i < 32; ++i) in.id[i] = (seed * 2654435761u + i * 40503u + (seed >> 3) * i) >> 3;
	for(int i = 0; i < 112 + int(seed % 17); ++i) in.memo.push_back(i * 7 + seed);
	in.plot_name = "p";
	try {
	phase1::output_t o1; phase1::compute(in, o1, nt, lb, "p", "./", "./");
	// ------------------------------------------------ phase 1
	std::vector<std::vector<PO>> T(8); std::vector<uint64_t> X, f7;
	auto t1 = load<phase1::tmp_entry_1>(o1.table[0], "C10");
	for(auto& e : t1) X.push_back(e.x);
	for(int t = 2; t <= 6; ++t) for(auto& e : load<phase1::tmp_entry_x>(o1.table[t - 1], "C11")) T[t].push_back({e.pos, e.off});
	for(auto& e : load<phase1::entry_7>(o1.table[6], "C11")) { T[7].push_back({e.pos, e.off}); f7.push_back(e.y); }
	ref::F1 f1(in.id.data(), k);
	std::vector<uint64_t> fy(uint64_t(1) << k); for(uint64_t x = 0; x < fy.size(); ++x) fy[x] = f1.y(x);
	{ std::vector<bool> seen(fy.size()); bool ok = X.size() == fy.size();
	  for(auto x : X) { if(x >= fy.size() || seen[x]) { ok = false; break; } seen[x] = true; }
	  chk("C10", ok, "table 1 does not hold every x exactly once"); if(!ok) goto done; }
	{
	std::vector<ref::YM> prev; for(auto x : X) prev.push_back({fy[x], x});
	for(size_t i = 1; i < prev.size(); ++i) if(prev[i - 1].y > prev[i].y) { chk("C10", false, "table 1 not ordered by f1 at " + S(i)); break; }
	for(int t = 2; t <= 7; ++t) {
		std::vector<uint64_t> y; for(auto& e : prev) y.push_back(e.y);
		if(!std::is_sorted(y.begin(), y.end())) { chk("C12", false, "table " + S(t - 1) + " not ordered by its function value"); std::vector<ref::YM> q; break; }
		auto m = ref::matches(y); auto a = T[t];
		std::sort(m.begin(), m.end()); std::sort(a.begin(), a.end());
		if(m != a) {
			std::vector<PO> d1, d2; std::set_difference(m.begin(), m.end(), a.begin(), a.end(), std::back_inserter(d1)); std::set_difference(a.begin(), a.end(), m.begin(), m.end(), std::back_inserter(d2));
			chk("C11", false, "table " + S(t) + ": " + S(d1.size()) + " matches missing" + (d1.size() ? " e.g. left " + S(d1[0].first) + "+" + S(d1[0].second) : "") + ", " + S(d2.size()) + " not matching" + (d2.size() ? " e.g. " + S(d2[0].first) + "+" + S(d2[0].second) : "") + " (k=" + S(k) + ", id seed " + S(seed) + ")");
			break;
		} else chk("C11", true, "");
		std::vector<ref::YM> cur; bool ok = true;
		for(auto& e : T[t]) cur.push_back(ref::fx(k, t, prev[e.first], prev[e.first + e.second]));
		if(t == 7) { for(size_t i = 0; i < cur.size(); ++i) if(cur[i].y != f7[i]) { ok = false; chk("C12", false, "f7 of entry " + S(i) + " is " + S(f7[i]) + ", definition gives " + S(cur[i].y)); break; } }
		chk("C12", ok, ""); prev = cur;
	}
	if(fails && WANT != "all") goto done;
	}
	{
	// ------------------------------------------------ phase 2
	phase1::output_t c1 = o1;
	for(auto& t : c1.table) { auto n = t.file_name + ".copy"; auto b = slurp(t.file_name); std::ofstream(n, std::ios::binary).write((char*)b.data(), b.size()); t.file_name = n; }
	std::vector<std::vector<PO>> keep(8); std::vector<uint64_t> keepX; std::vector<std::vector<uint64_t>> rank(8);
	{
		std::vector<bool> used(T[7].size(), true);
		for(int t = 7; t >= 2; --t) {
			size_t n = t == 2 ? X.size() : T[t - 1].size(); std::vector<bool> u(n);
			for(size_t i = 0; i < T[t].size(); ++i) if(used[i]) { u[T[t][i].first] = true; u[T[t][i].first + T[t][i].second] = true; keep[t].push_back(T[t][i]); }
			std::vector<uint64_t> r(n + 1); for(size_t i = 0; i < n; ++i) r[i + 1] = r[i] + u[i];
			for(auto& e : keep[t]) { uint64_t a = r[e.first], b = r[e.first + e.second]; e = {a, b - a}; }
			used = u;
		}
		for(size_t i = 0; i < X.size(); ++i) if(used[i]) keepX.push_back(X[i]);
	}
	{
		phase2::output_t q; phase2::compute(c1, q, nt, lb3, "q", "./", "./");
		auto t7 = load<phase2::entry_7>(q.table_7, "C05"); bool ok = t7.size() == keep[7].size();
		for(size_t i = 0; ok && i < t7.size(); ++i) ok = t7[i].pos == keep[7][i].first && t7[i].off == keep[7][i].second && t7[i].y == f7[i];
		chk("C05", ok, "phase 2 table 7 differs from the expected renumbered table");
		for(int t = 6; t >= 2; --t) {
			std::vector<phase2::entry_x> got; bool pos_ok = true;
			{ Thread<std::pair<std::vector<phase2::entry_x>, size_t>> rd([&](std::pair<std::vector<phase2::entry_x>, size_t>& b) { if(b.second != got.size()) pos_ok = false; got.insert(got.end(), b.first.begin(), b.first.end()); });
			  q.sort[t - 1]->read(&rd, nt); rd.close(); }
			ok = got.size() == keep[t].size() && pos_ok; std::vector<bool> seen(keep[t].size());
			for(auto& e : got) { if(e.key >= seen.size() || seen[e.key] || e.pos != keep[t][e.key].first || e.off != keep[t][e.key].second) { ok = false; break; } seen[e.key] = true; }
			chk("C05", ok, "phase 2 table " + S(t) + " differs from the expected kept/renumbered table (k=" + S(k) + ", id seed " + S(seed) + ")");
		}
		std::vector<uint64_t> kx; for(size_t i = 0; i < X.size(); ++i) if(q.bitfield_1->get(i)) kx.push_back(X[i]);
		chk("C05", kx == keepX, "kept set of table 1 differs");
	}
	phase2::output_t o2; phase2::compute(o1, o2, nt, lb3, "p", "./", "./");
	phase3::output_t o3; phase3::compute(o2, o3, nt, lb3, "p", "./", "./", "./");
	phase4::output_t o4; phase4::compute(o3, o4, nt, lb3, "p", "./", "./", "./");
	auto F = slurp(o4.plot_file_name);
	// ------------------------------------------------ header
	std::vector<uint8_t> H; auto put = [&](const void* p, size_t n) { H.insert(H.end(), (uint8_t*)p, (uint8_t*)p + n); };
	put("Proof of Space Plot", 19); put(in.id.data(), 32); H.push_back(k); H.push_back(0); H.push_back(4); put("v1.0", 4);
	H.push_back(in.memo.size() >> 8); H.push_back(in.memo.size()); put(in.memo.data(), in.memo.size());
	const size_t ptrs = H.size();
	if(!chk("C15", F.size() >= ptrs + 80 && std::equal(H.begin(), H.end(), F.begin()), "plot header differs from the format")) goto done;
	std::vector<uint64_t> P(12); P[1] = ptrs + 80;
	std::vector<size_t> n(8); for(int t = 1; t <= 6; ++t) n[t] = keep[t + 1].size();
	for(int t = 1; t <= 6; ++t) P[t + 1] = P[t] + (n[t] + 2047) / 2048 * ref::park_size(k, t);
	const size_t N = keep[7].size(), kb = (k + 7) / 8;
	P[8] = P[7] + (N + 2047) / 2048 * ref::p7_size(k); const size_t nc1 = (N + 9999) / 10000, nc2 = (nc1 + 9999) / 10000;
	P[9] = P[8] + (nc1 + 1) * kb; P[10] = P[9] + (nc2 + 1) * kb; P[11] = P[10] + nc1 * ref::c3_size(k);
	for(int i = 1; i <= 10; ++i) { uint64_t v = (uint64_t)ref::bits_at(F.data(), (ptrs + (i - 1) * 8) * 8, 64); chk("C15", v == P[i], "table pointer " + S(i) + " is " + S(v) + ", expected " + S(P[i])); }
	chk("C15", o4.plot_size == P[11] && F.size() == P[11], "plot size " + S(F.size()) + " / reported " + S(o4.plot_size) + ", expected " + S(P[11]));
	if(fails && WANT != "all") goto done;
	F.resize(P[11] + 64);
	// ------------------------------------------------ tables 1..6
	std::vector<uint64_t> npos = keepX; std::vector<std::vector<R128>> LP(7); std::vector<uint64_t> np6;
	for(int t = 1; t <= 6; ++t) {
		std::vector<std::pair<R128, size_t>> e; for(size_t i = 0; i < keep[t + 1].size(); ++i) { auto& q = keep[t + 1][i]; e.push_back({ref::line_point(npos[q.first], npos[q.first + q.second]), i}); }
		if(t == 6) { std::sort(e.begin(), e.end()); } else std::sort(e.begin(), e.end());
		std::vector<R128> got; std::string err;
		for(size_t i = 0; i < n[t] && err.empty(); i += 2048) err = ref::decode_park(F.data() + P[t] + i / 2048 * ref::park_size(k, t), k, t, std::min<size_t>(2048, n[t] - i), got);
		chk("C07", err.empty(), "table " + S(t) + ": " + err);
		bool ok = err.empty() && got.size() == e.size(); size_t i = 0;
		for(; ok && i < e.size(); ++i) ok = got[i] == e[i].first;
		chk("C13", ok || !err.empty(), "table " + S(t) + " line point " + S(i ? i - 1 : 0) + " does not decode to the positions of its parents");
		LP[t] = got;
		std::vector<uint64_t> r(e.size()); for(size_t i = 0; i < e.size(); ++i) r[e[i].second] = i;
		npos = r;
	}
	// ------------------------------------------------ P7, C1, C2, C3
	std::vector<PO> want7; for(size_t i = 0; i < N; ++i) want7.push_back({f7[i], npos[i]});
	std::sort(want7.begin(), want7.end());
	std::vector<PO> got7; std::vector<uint64_t> c1v;
	for(size_t i = 0; i < nc1; ++i) c1v.push_back((uint64_t)ref::bits_at(F.data() + P[8] + i * kb, 0, k));
	chk("C14", ref::bits_at(F.data() + P[8] + nc1 * kb, 0, kb * 8) == 0, "C1 not terminated by a zero entry");
	for(size_t i = 0; i < nc2; ++i) chk("C14", (uint64_t)ref::bits_at(F.data() + P[9] + i * kb, 0, k) == c1v[i * 10000], "C2 entry " + S(i));
	chk("C14", ref::bits_at(F.data() + P[9] + nc2 * kb, 0, kb * 8) == 0, "C2 not terminated by a zero entry");
	for(size_t c = 0; c < nc1; ++c) {
		size_t m = std::min<size_t>(10000, N - c * 10000); uint64_t y = c1v[c]; got7.push_back({y, 0});
		const uint8_t* p = F.data() + P[10] + c * ref::c3_size(k); size_t sz = p[0] << 8 | p[1]; std::vector<uint8_t> d;
		bool ok = m <= 1 ? sz == 0 || true : sz + 2 <= ref::c3_size(k) && ref::ans(1.0).decode(p + 2, sz, m - 1, d);
		if(!chk("C14", ok, "C3 park " + S(c) + " does not hold exactly " + S(m - 1) + " deltas")) goto done;
		for(size_t i = 0; i + 1 < m; ++i) { y += d[i]; got7.push_back({y, 0}); }
	}
	for(size_t i = 0; i < N; ++i) got7[i].second = (uint64_t)ref::bits_at(F.data() + P[7] + i / 2048 * ref::p7_size(k), i % 2048 * (k + 1), k + 1);
	{ bool s = true; for(size_t i = 1; i < N; ++i) s = s && got7[i - 1].first <= got7[i].first; chk("C14", s, "f7 values not ordered");
	  auto g = got7; std::sort(g.begin(), g.end()); size_t i = 0; while(i < N && g[i] == want7[i]) ++i; chk("C14", i == N, "recovered (f7, table 6 position) pairs differ, e.g. f7 " + S(i < N ? g[i].first : 0) + " pos " + S(i < N ? g[i].second : 0) + " expected " + S(i < N ? want7[i].first : 0) + " pos " + S(i < N ? want7[i].second : 0)); }
	// ------------------------------------------------ independent validity of the file alone
	if(WANT == "all" || WANT.find("C18") != std::string::npos) {
		std::vector<ref::YM> cur; bool ok = true; std::vector<uint64_t> h, ch;
		std::vector<std::vector<uint64_t>> ord;
		for(uint64_t x = 0; x < fy.size(); ++x) { cur.push_back({fy[x], x}); h.push_back((x + 1) * 0x9E3779B97F4A7C15ull); }
		auto mix = [](uint64_t a, uint64_t b) { uint64_t z = a * 0xBF58476D1CE4E5B9ull + (b ^ (b >> 29)) * 0x94D049BB133111EBull; z ^= z >> 31; return z * 0x9E3779B97F4A7C15ull + 1; };
		std::vector<ref::YM> base = cur; std::vector<uint64_t> bh = h;
		for(int t = 1; t <= 6 && ok; ++t) {
			std::vector<ref::YM> nx; std::vector<uint64_t> nh;
			for(auto lp : LP[t]) { auto s = ref::square(lp); if(s.first >= cur.size() || s.second >= cur.size()) { ok = false; break; } uint64_t a = s.first, b = s.second; if(!ref::is_match(cur[a].y, cur[b].y)) std::swap(a, b); if(!ref::is_match(cur[a].y, cur[b].y)) { ok = false; break; } nx.push_back(ref::fx(k, t + 1, cur[a], cur[b])); nh.push_back(mix(h[a], h[b])); }
			cur = nx; h = nh;
		}
		chk("C18", ok, "an entry of the finished plot does not expand to matching entries");
		std::vector<PO> proofs; if(ok) for(auto& g : got7) { if(g.second >= cur.size() || cur[g.second].y != g.first) { ok = false; break; } proofs.push_back({g.first, h[g.second]}); }
		chk("C18", ok, "a final entry's f7 is not the value of its proof");
		// expected proofs, from the definition alone
		std::vector<ref::YM> c = base; h = bh;
		for(int t = 2; t <= 7; ++t) {
			std::vector<size_t> o(c.size()); for(size_t i = 0; i < o.size(); ++i) o[i] = i;
			std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return c[a].y < c[b].y; });
			std::vector<uint64_t> y; for(auto i : o) y.push_back(c[i].y);
			std::vector<ref::YM> nx; std::vector<uint64_t> nh;
			for(auto& m : ref::matches(y)) { size_t a = o[m.first], b = o[m.first + m.second]; nx.push_back(ref::fx(k, t, c[a], c[b])); nh.push_back(mix(h[a], h[b])); }
			c = nx; h = nh;
		}
		std::vector<PO> ex; for(size_t i = 0; i < c.size(); ++i) ex.push_back({c[i].y, h[i]});
		std::sort(ex.begin(), ex.end()); std::sort(proofs.begin(), proofs.end());
		chk("C18", !ok || ex == proofs, "the set of proofs in the plot differs from the definition (" + S(proofs.size()) + " vs " + S(ex.size()) + ")");
	}
	// leftovers
	}
	} catch(const std::exception& e) { chk("C18", false, std::string("plotting failed: ") + e.what()); for(auto p : {"C05", "C07", "C10", "C11", "C12", "C13", "C14", "C15"}) if(WANT.find(p) == 0) chk(p, false, std::string("plotting failed: ") + e.what()); }
done:
	for(auto& c : checked) printf("RUN %s executions=%d\n", c.first.c_str(), c.second);
	fflush(stdout);
	_exit(fails ? 1 : 0);
}
