// C01: every on-disk entry type is the identity through write() then read(), for every
// value its fields can take, and touches exactly disk_size bytes.
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include "vc.h"

#ifdef CHIA_K34
static const u64 Y_MAX = (1ull << 40) - 1, X_MAX = (1ull << 34) - 1, POS_MAX = (1ull << 35) - 1, K_MAX = (1ull << 34) - 1;
#else
static const u64 Y_MAX = (1ull << 38) - 1, X_MAX = (1ull << 32) - 1, POS_MAX = (1ull << 32) - 1, K_MAX = (1ull << 32) - 1;
#endif
static const u64 OFF_MAX = 1023;

// buffer with guard bytes around the disk image; contents before write() are arbitrary
template<typename T> struct image {
	u8 raw[T::disk_size + 16];
	u8 pre[8], post[8];
	image() {
		vc_havoc(raw, sizeof(raw));
		for(int i = 0; i < 8; ++i) { pre[i] = raw[i]; post[i] = raw[8 + T::disk_size + i]; }
	}
	u8* buf() { return raw + 8; }
	void frame() {
		for(int i = 0; i < 8; ++i) {
			vc_assert(raw[i] == pre[i], "write() leaves bytes before the entry alone");
			vc_assert(raw[8 + T::disk_size + i] == post[i], "write() leaves bytes after the entry alone");
		}
	}
};
template<typename T> void stale(T& e) { vc_havoc(&e, sizeof(T)); }

VC_HARNESS(C01_entry_1) {
	phase1::entry_1 a; a.y = vc_range("y", 0, Y_MAX); a.x = vc_range("x", 0, X_MAX);
	image<phase1::entry_1> m;
	vc_assert(a.write(m.buf()) == phase1::entry_1::disk_size, "write returns disk_size"); m.frame();
	phase1::entry_1 b; stale(b);
	vc_assert(b.read(m.buf()) == phase1::entry_1::disk_size, "read returns disk_size");
	vc_assert(b.y == a.y, "entry_1.y"); vc_assert(b.x == a.x, "entry_1.x");
	vc_cover("entry_1");
}
template<int N> void entry_xm_rt() {
	typedef phase1::entry_xm<N> E;
	E a; a.y = vc_range("y", 0, Y_MAX); a.pos = vc_range("pos", 0, POS_MAX); a.off = vc_range("off", 0, OFF_MAX);
	for(int i = 0; i < N; ++i) a.meta[i] = vc_u8("meta");
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.y == a.y, "entry_x.y"); vc_assert(b.pos == a.pos, "entry_x.pos"); vc_assert(b.off == a.off, "entry_x.off");
	for(int i = 0; i < N; ++i) vc_assert(b.meta[i] == a.meta[i], "entry_x.meta");
	vc_cover("entry_xm");
}
VC_HARNESS(C01_entry_2) { entry_xm_rt<sizeof(phase1::entry_2::meta)>(); }
VC_HARNESS(C01_entry_3) { entry_xm_rt<sizeof(phase1::entry_3::meta)>(); }
VC_HARNESS(C01_entry_4) { entry_xm_rt<sizeof(phase1::entry_4::meta)>(); }
VC_HARNESS(C01_entry_5) { entry_xm_rt<sizeof(phase1::entry_5::meta)>(); }
VC_HARNESS(C01_entry_6) { entry_xm_rt<sizeof(phase1::entry_6::meta)>(); }
VC_HARNESS(C01_entry_7) {
	typedef phase1::entry_7 E;
	E a; a.y = vc_range("y", 0, K_MAX); a.pos = vc_range("pos", 0, POS_MAX); a.off = vc_range("off", 0, OFF_MAX);
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.y == a.y, "entry_7.y"); vc_assert(b.pos == a.pos, "entry_7.pos"); vc_assert(b.off == a.off, "entry_7.off");
	E c; c.assign(a);
	vc_assert(c.y == a.y && c.pos == a.pos && c.off == a.off, "entry_7.assign");
	vc_cover("entry_7");
}
VC_HARNESS(C01_tmp_entry_1) {
	typedef phase1::tmp_entry_1 E;
	E a; a.x = vc_range("x", 0, X_MAX);
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.x == a.x, "tmp_entry_1.x");
	phase1::entry_1 s; s.y = vc_u64("sy"); s.x = vc_range("sx", 0, X_MAX);
	E c; stale(c); c.assign(s); vc_assert(c.x == s.x, "tmp_entry_1.assign");
	vc_cover("tmp_entry_1");
}
VC_HARNESS(C01_tmp_entry_x) {
	typedef phase1::tmp_entry_x E;
	E a; a.pos = vc_range("pos", 0, POS_MAX); a.off = vc_range("off", 0, OFF_MAX);
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.pos == a.pos, "tmp_entry_x.pos"); vc_assert(b.off == a.off, "tmp_entry_x.off");
	phase1::entry_x s; s.y = vc_u64("sy"); s.pos = vc_range("spos", 0, POS_MAX); s.off = vc_range("soff", 0, OFF_MAX);
	E c; stale(c); c.assign(s); vc_assert(c.pos == s.pos && c.off == s.off, "tmp_entry_x.assign");
	vc_cover("tmp_entry_x");
}
VC_HARNESS(C01_p2_entry_x) {
	typedef phase2::entry_x E;
	E a; a.key = vc_range("key", 0, POS_MAX); a.pos = vc_range("pos", 0, POS_MAX); a.off = vc_range("off", 0, OFF_MAX);
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.key == a.key, "phase2::entry_x.key"); vc_assert(b.pos == a.pos, "phase2::entry_x.pos"); vc_assert(b.off == a.off, "phase2::entry_x.off");
	phase1::tmp_entry_x s; s.pos = vc_range("spos", 0, POS_MAX); s.off = vc_range("soff", 0, OFF_MAX);
	E c; stale(c); c.assign(s); vc_assert(c.pos == s.pos && c.off == s.off, "phase2::entry_x.assign");
	phase2::set_sort_key<E>()(c, a.key); vc_assert(c.key == a.key && c.pos == s.pos && c.off == s.off, "set_sort_key sets only the key");
	vc_assert(phase2::get_pos<E>()(a) == a.pos, "get_pos");
	vc_assert(phase3::get_sort_key<E>()(a) == a.key, "get_sort_key");
	vc_assert(phase3::get_new_pos<E>()(a) == a.pos, "get_new_pos");
	vc_cover("p2_entry_x");
}
VC_HARNESS(C01_entry_lp) {
	typedef phase3::entry_lp E;
	// 2k-1 bit line point (k = KMAX, position width PMAX)
	E a; a.key = vc_range("key", 0, POS_MAX);
	a.point = vc_u64("point_lo");
#ifdef CHIA_K34
	a.point |= uint128_t(vc_range("point_hi", 0, 15)) << 64;
#endif
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.point == a.point, "entry_lp.point"); vc_assert(b.key == a.key, "entry_lp.key");
	vc_assert(phase3::get_line_point<E>()(a) == a.point, "get_line_point");
	vc_cover("entry_lp");
}
VC_HARNESS(C01_entry_np) {
	typedef phase3::entry_np E;
	E a; a.key = vc_range("key", 0, POS_MAX); a.pos = vc_range("pos", 0, POS_MAX);
	image<E> m;
	vc_assert(a.write(m.buf()) == E::disk_size, "write returns disk_size"); m.frame();
	E b; stale(b);
	vc_assert(b.read(m.buf()) == E::disk_size, "read returns disk_size");
	vc_assert(b.key == a.key, "entry_np.key"); vc_assert(b.pos == a.pos, "entry_np.pos");
	vc_assert(phase3::get_sort_key<E>()(a) == a.key, "get_sort_key"); vc_assert(phase3::get_new_pos<E>()(a) == a.pos, "get_new_pos");
	vc_cover("entry_np");
}
