// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_25_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  T<2> m4;
  T<2> m5;
  T<3> m6;
  T<3> m7;
  T<4> m8;
  T<4> m9;
  T<5> m10;
  T<5> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  uniq<T<7>> m14;
  uniq<T<7>> m15;
  std::shared_ptr<T<8>> m16;
  std::shared_ptr<T<8>> m17;
  std::shared_ptr<T<9>> m18;
  std::shared_ptr<T<9>> m19;
  T<10>* m20;
  T<10>* m21;
  T<11>* m22;
  T<11>* m23;
  std::shared_ptr<T<12>> m24;
};
struct tgt_25_2_0 {
  T<6>* r0;
  T<9>& r1;
  T<7>& r2;
  T<11>* r3;
  T<1>& r4;
  T<12>& r5;
  T<8>& r6;
  T<0>& r7;
  T<4>& r8;
  T<10>& r9;
  T<3>& r10;
  T<5>& r11;
  T<2>& r12;
};
void run_25_2(vf::ctx& c) {
  store s{c}; src_25_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.uptr<7>(), s.uptr<7>(), s.sptr<8>(), s.sptr<8>(), s.sptr<9>(), s.sptr<9>(), s.ptr<10>(), s.ptr<10>(), s.ptr<11>(), s.ptr<11>(), s.sptr<12>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, &src.m9, &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17.get(), src.m18.get(), src.m19.get(), src.m20, src.m21, src.m22, src.m23, src.m24.get());
  {
  bool const none = src.m14.get() == nullptr || src.m16.get() == nullptr || src.m18.get() == nullptr || src.m20 == nullptr || src.m24.get() == nullptr;
  auto t = utl::init_from<tgt_25_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "25_2");
  if (t) {
    CHECK(t->r0 == src.m12.get(), "init_from/address", "25_2 member 0");
    CHECK(&t->r1 == src.m18.get(), "init_from/address", "25_2 member 1");
    CHECK(&t->r2 == src.m14.get(), "init_from/address", "25_2 member 2");
    CHECK(t->r3 == src.m22, "init_from/address", "25_2 member 3");
    CHECK(&t->r4 == &src.m2, "init_from/address", "25_2 member 4");
    CHECK(&t->r5 == src.m24.get(), "init_from/address", "25_2 member 5");
    CHECK(&t->r6 == src.m16.get(), "init_from/address", "25_2 member 6");
    CHECK(&t->r7 == &src.m0, "init_from/address", "25_2 member 7");
    CHECK(&t->r8 == &src.m8, "init_from/address", "25_2 member 8");
    CHECK(&t->r9 == src.m20, "init_from/address", "25_2 member 9");
    CHECK(&t->r10 == &src.m6, "init_from/address", "25_2 member 10");
    CHECK(&t->r11 == &src.m10, "init_from/address", "25_2 member 11");
    CHECK(&t->r12 == &src.m4, "init_from/address", "25_2 member 12");
    c.count("init-members", 13);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, &src.m9, &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17.get(), src.m18.get(), src.m19.get(), src.m20, src.m21, src.m22, src.m23, src.m24.get()), "init_from/source-changed", "25_2");
  c.count("inits"); c.distinct(vf::hcomb(102, s.pattern));
}
struct src_25_3 {
  uniq<T<0>> m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  T<4> m7;
  T<4> m8;
  T<5> m9;
  T<5> m10;
  std::shared_ptr<T<6>> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<7>> m13;
  std::shared_ptr<T<7>> m14;
  T<8> m15;
  T<8> m16;
  T<9>* m17;
  T<9>* m18;
  std::shared_ptr<T<10>> m19;
  std::shared_ptr<T<10>> m20;
  T<11>* m21;
  T<11>* m22;
  uniq<T<12>> m23;
  uniq<T<12>> m24;
};
struct tgt_25_3_0 {
  T<6>& r0;
  T<3>& r1;
  T<4>& r2;
  T<11>& r3;
  T<7>& r4;
  T<2>& r5;
  T<8>& r6;
  T<0>* r7;
  T<1>& r8;
  T<9>& r9;
  T<10>& r10;
  T<5>& r11;
  T<12>& r12;
};
void run_25_3(vf::ctx& c) {
  store s{c}; src_25_3 src{s.uptr<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.sptr<7>(), s.sptr<7>(), s.direct<8>(), s.direct<8>(), s.ptr<9>(), s.ptr<9>(), s.sptr<10>(), s.sptr<10>(), s.ptr<11>(), s.ptr<11>(), s.uptr<12>(), s.uptr<12>()};
  auto const before = snapshot(src.m0.get(), &src.m1, &src.m2, &src.m3, &src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10, src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, &src.m16, src.m17, src.m18, src.m19.get(), src.m20.get(), src.m21, src.m22, src.m23.get(), src.m24.get());
  {
  bool const none = src.m11.get() == nullptr || src.m13.get() == nullptr || src.m17 == nullptr || src.m19.get() == nullptr || src.m21 == nullptr || src.m23.get() == nullptr || src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_25_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "25_3");
  if (t) {
    CHECK(&t->r0 == src.m11.get(), "init_from/address", "25_3 member 0");
    CHECK(&t->r1 == src.m5.get(), "init_from/address", "25_3 member 1");
    CHECK(&t->r2 == &src.m7, "init_from/address", "25_3 member 2");
    CHECK(&t->r3 == src.m21, "init_from/address", "25_3 member 3");
    CHECK(&t->r4 == src.m13.get(), "init_from/address", "25_3 member 4");
    CHECK(&t->r5 == &src.m3, "init_from/address", "25_3 member 5");
    CHECK(&t->r6 == &src.m15, "init_from/address", "25_3 member 6");
    CHECK(t->r7 == src.m0.get(), "init_from/address", "25_3 member 7");
    CHECK(&t->r8 == &src.m1, "init_from/address", "25_3 member 8");
    CHECK(&t->r9 == src.m17, "init_from/address", "25_3 member 9");
    CHECK(&t->r10 == src.m19.get(), "init_from/address", "25_3 member 10");
    CHECK(&t->r11 == &src.m9, "init_from/address", "25_3 member 11");
    CHECK(&t->r12 == src.m23.get(), "init_from/address", "25_3 member 12");
    c.count("init-members", 13);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, &src.m2, &src.m3, &src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10, src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, &src.m16, src.m17, src.m18, src.m19.get(), src.m20.get(), src.m21, src.m22, src.m23.get(), src.m24.get()), "init_from/source-changed", "25_3");
  c.count("inits"); c.distinct(vf::hcomb(103, s.pattern));
}
struct src_26_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  T<2> m4;
  T<2> m5;
  std::shared_ptr<T<3>> m6;
  std::shared_ptr<T<3>> m7;
  uniq<T<4>> m8;
  uniq<T<4>> m9;
  T<5> m10;
  T<5> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  T<7>* m14;
  T<7>* m15;
  T<8>* m16;
  T<8>* m17;
  std::shared_ptr<T<9>> m18;
  std::shared_ptr<T<9>> m19;
  uniq<T<10>> m20;
  uniq<T<10>> m21;
  std::shared_ptr<T<11>> m22;
  std::shared_ptr<T<11>> m23;
  uniq<T<12>> m24;
  uniq<T<12>> m25;
};
struct tgt_26_2_0 {
  T<12>* r0;
  T<9>* r1;
  T<6>* r2;
  T<2>& r3;
  T<7>* r4;
  T<8>* r5;
  T<10>& r6;
  T<1>& r7;
  T<0>& r8;
  T<11>& r9;
  T<5>& r10;
  T<4>& r11;
  T<3>* r12;
};
void run_26_2(vf::ctx& c) {
  store s{c}; src_26_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.uptr<4>(), s.uptr<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.ptr<7>(), s.ptr<7>(), s.ptr<8>(), s.ptr<8>(), s.sptr<9>(), s.sptr<9>(), s.uptr<10>(), s.uptr<10>(), s.sptr<11>(), s.sptr<11>(), s.uptr<12>(), s.uptr<12>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14, src.m15, src.m16, src.m17, src.m18.get(), src.m19.get(), src.m20.get(), src.m21.get(), src.m22.get(), src.m23.get(), src.m24.get(), src.m25.get());
  {
  bool const none = src.m20.get() == nullptr || src.m22.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_26_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "26_2");
  if (t) {
    CHECK(t->r0 == src.m24.get(), "init_from/address", "26_2 member 0");
    CHECK(t->r1 == src.m18.get(), "init_from/address", "26_2 member 1");
    CHECK(t->r2 == src.m12.get(), "init_from/address", "26_2 member 2");
    CHECK(&t->r3 == &src.m4, "init_from/address", "26_2 member 3");
    CHECK(t->r4 == src.m14, "init_from/address", "26_2 member 4");
    CHECK(t->r5 == src.m16, "init_from/address", "26_2 member 5");
    CHECK(&t->r6 == src.m20.get(), "init_from/address", "26_2 member 6");
    CHECK(&t->r7 == &src.m2, "init_from/address", "26_2 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "26_2 member 8");
    CHECK(&t->r9 == src.m22.get(), "init_from/address", "26_2 member 9");
    CHECK(&t->r10 == &src.m10, "init_from/address", "26_2 member 10");
    CHECK(&t->r11 == src.m8.get(), "init_from/address", "26_2 member 11");
    CHECK(t->r12 == src.m6.get(), "init_from/address", "26_2 member 12");
    c.count("init-members", 13);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14, src.m15, src.m16, src.m17, src.m18.get(), src.m19.get(), src.m20.get(), src.m21.get(), src.m22.get(), src.m23.get(), src.m24.get(), src.m25.get()), "init_from/source-changed", "26_2");
  c.count("inits"); c.distinct(vf::hcomb(106, s.pattern));
}
struct src_26_3 {
  T<0> m0;
  T<1> m1;
  T<1> m2;
  T<2>* m3;
  T<2>* m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  uniq<T<4>> m7;
  uniq<T<4>> m8;
  T<5> m9;
  T<5> m10;
  std::shared_ptr<T<6>> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<7>> m13;
  std::shared_ptr<T<7>> m14;
  T<8> m15;
  T<8> m16;
  T<9>* m17;
  T<9>* m18;
  uniq<T<10>> m19;
  uniq<T<10>> m20;
  std::shared_ptr<T<11>> m21;
  std::shared_ptr<T<11>> m22;
  T<12>* m23;
  T<12>* m24;
  std::shared_ptr<T<13>> m25;
};
struct tgt_26_3_0 {
  T<8>& r0;
  T<10>& r1;
  T<7>* r2;
  T<13>& r3;
  T<3>* r4;
  T<1>& r5;
  T<4>* r6;
  T<12>& r7;
  T<11>& r8;
  T<2>* r9;
  T<9>& r10;
  T<6>& r11;
  T<0>& r12;
  T<5>& r13;
};
void run_26_3(vf::ctx& c) {
  store s{c}; src_26_3 src{s.direct<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>(), s.ptr<2>(), s.sptr<3>(), s.sptr<3>(), s.uptr<4>(), s.uptr<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.sptr<7>(), s.sptr<7>(), s.direct<8>(), s.direct<8>(), s.ptr<9>(), s.ptr<9>(), s.uptr<10>(), s.uptr<10>(), s.sptr<11>(), s.sptr<11>(), s.ptr<12>(), s.ptr<12>(), s.sptr<13>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), &src.m9, &src.m10, src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, &src.m16, src.m17, src.m18, src.m19.get(), src.m20.get(), src.m21.get(), src.m22.get(), src.m23, src.m24, src.m25.get());
  {
  bool const none = src.m11.get() == nullptr || src.m17 == nullptr || src.m19.get() == nullptr || src.m21.get() == nullptr || src.m23 == nullptr || src.m25.get() == nullptr;
  auto t = utl::init_from<tgt_26_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "26_3");
  if (t) {
    CHECK(&t->r0 == &src.m15, "init_from/address", "26_3 member 0");
    CHECK(&t->r1 == src.m19.get(), "init_from/address", "26_3 member 1");
    CHECK(t->r2 == src.m13.get(), "init_from/address", "26_3 member 2");
    CHECK(&t->r3 == src.m25.get(), "init_from/address", "26_3 member 3");
    CHECK(t->r4 == src.m5.get(), "init_from/address", "26_3 member 4");
    CHECK(&t->r5 == &src.m1, "init_from/address", "26_3 member 5");
    CHECK(t->r6 == src.m7.get(), "init_from/address", "26_3 member 6");
    CHECK(&t->r7 == src.m23, "init_from/address", "26_3 member 7");
    CHECK(&t->r8 == src.m21.get(), "init_from/address", "26_3 member 8");
    CHECK(t->r9 == src.m3, "init_from/address", "26_3 member 9");
    CHECK(&t->r10 == src.m17, "init_from/address", "26_3 member 10");
    CHECK(&t->r11 == src.m11.get(), "init_from/address", "26_3 member 11");
    CHECK(&t->r12 == &src.m0, "init_from/address", "26_3 member 12");
    CHECK(&t->r13 == &src.m9, "init_from/address", "26_3 member 13");
    c.count("init-members", 14);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), &src.m9, &src.m10, src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, &src.m16, src.m17, src.m18, src.m19.get(), src.m20.get(), src.m21.get(), src.m22.get(), src.m23, src.m24, src.m25.get()), "init_from/source-changed", "26_3");
  c.count("inits"); c.distinct(vf::hcomb(107, s.pattern));
}
struct src_27_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  uniq<T<3>> m6;
  uniq<T<3>> m7;
  T<4> m8;
  T<4> m9;
  uniq<T<5>> m10;
  uniq<T<5>> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  std::shared_ptr<T<7>> m14;
  std::shared_ptr<T<7>> m15;
  T<8>* m16;
  T<8>* m17;
  uniq<T<9>> m18;
  uniq<T<9>> m19;
  T<10> m20;
  T<10> m21;
  uniq<T<11>> m22;
  uniq<T<11>> m23;
  T<12> m24;
  T<12> m25;
  T<13> m26;
};
struct tgt_27_2_0 {
  T<5>* r0;
  T<2>* r1;
  T<12>& r2;
  T<11>* r3;
  T<3>& r4;
  T<0>& r5;
  T<13>& r6;
  T<7>& r7;
  T<4>& r8;
  T<9>* r9;
  T<10>& r10;
  T<8>* r11;
  T<6>& r12;
  T<1>& r13;
};
void run_27_2(vf::ctx& c) {
  store s{c}; src_27_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.uptr<3>(), s.uptr<3>(), s.direct<4>(), s.direct<4>(), s.uptr<5>(), s.uptr<5>(), s.sptr<6>(), s.sptr<6>(), s.sptr<7>(), s.sptr<7>(), s.ptr<8>(), s.ptr<8>(), s.uptr<9>(), s.uptr<9>(), s.direct<10>(), s.direct<10>(), s.uptr<11>(), s.uptr<11>(), s.direct<12>(), s.direct<12>(), s.direct<13>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), &src.m8, &src.m9, src.m10.get(), src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16, src.m17, src.m18.get(), src.m19.get(), &src.m20, &src.m21, src.m22.get(), src.m23.get(), &src.m24, &src.m25, &src.m26);
  {
  bool const none = src.m12.get() == nullptr || src.m14.get() == nullptr || src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_27_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "27_2");
  if (t) {
    CHECK(t->r0 == src.m10.get(), "init_from/address", "27_2 member 0");
    CHECK(t->r1 == src.m4.get(), "init_from/address", "27_2 member 1");
    CHECK(&t->r2 == &src.m24, "init_from/address", "27_2 member 2");
    CHECK(t->r3 == src.m22.get(), "init_from/address", "27_2 member 3");
    CHECK(&t->r4 == src.m6.get(), "init_from/address", "27_2 member 4");
    CHECK(&t->r5 == &src.m0, "init_from/address", "27_2 member 5");
    CHECK(&t->r6 == &src.m26, "init_from/address", "27_2 member 6");
    CHECK(&t->r7 == src.m14.get(), "init_from/address", "27_2 member 7");
    CHECK(&t->r8 == &src.m8, "init_from/address", "27_2 member 8");
    CHECK(t->r9 == src.m18.get(), "init_from/address", "27_2 member 9");
    CHECK(&t->r10 == &src.m20, "init_from/address", "27_2 member 10");
    CHECK(t->r11 == src.m16, "init_from/address", "27_2 member 11");
    CHECK(&t->r12 == src.m12.get(), "init_from/address", "27_2 member 12");
    CHECK(&t->r13 == &src.m2, "init_from/address", "27_2 member 13");
    c.count("init-members", 14);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), &src.m8, &src.m9, src.m10.get(), src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16, src.m17, src.m18.get(), src.m19.get(), &src.m20, &src.m21, src.m22.get(), src.m23.get(), &src.m24, &src.m25, &src.m26), "init_from/source-changed", "27_2");
  c.count("inits"); c.distinct(vf::hcomb(110, s.pattern));
}
struct src_27_3 {
  std::shared_ptr<T<0>> m0;
  uniq<T<1>> m1;
  uniq<T<1>> m2;
  T<2>* m3;
  T<2>* m4;
  T<3> m5;
  T<3> m6;
  std::shared_ptr<T<4>> m7;
  std::shared_ptr<T<4>> m8;
  T<5> m9;
  T<5> m10;
  T<6> m11;
  T<6> m12;
  uniq<T<7>> m13;
  uniq<T<7>> m14;
  std::shared_ptr<T<8>> m15;
  std::shared_ptr<T<8>> m16;
  T<9>* m17;
  T<9>* m18;
  uniq<T<10>> m19;
  uniq<T<10>> m20;
  T<11>* m21;
  T<11>* m22;
  T<12> m23;
  T<12> m24;
  T<13>* m25;
  T<13>* m26;
};
struct tgt_27_3_0 {
  T<1>* r0;
  T<7>& r1;
  T<12>& r2;
  T<3>& r3;
  T<9>* r4;
  T<10>* r5;
  T<13>& r6;
  T<2>& r7;
  T<8>& r8;
  T<5>& r9;
  T<4>& r10;
  T<6>& r11;
  T<0>& r12;
  T<11>& r13;
};
void run_27_3(vf::ctx& c) {
  store s{c}; src_27_3 src{s.sptr<0>(), s.uptr<1>(), s.uptr<1>(), s.ptr<2>(), s.ptr<2>(), s.direct<3>(), s.direct<3>(), s.sptr<4>(), s.sptr<4>(), s.direct<5>(), s.direct<5>(), s.direct<6>(), s.direct<6>(), s.uptr<7>(), s.uptr<7>(), s.sptr<8>(), s.sptr<8>(), s.ptr<9>(), s.ptr<9>(), s.uptr<10>(), s.uptr<10>(), s.ptr<11>(), s.ptr<11>(), s.direct<12>(), s.direct<12>(), s.ptr<13>(), s.ptr<13>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), src.m8.get(), &src.m9, &src.m10, &src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17, src.m18, src.m19.get(), src.m20.get(), src.m21, src.m22, &src.m23, &src.m24, src.m25, src.m26);
  {
  bool const none = src.m0.get() == nullptr || src.m13.get() == nullptr || src.m15.get() == nullptr || src.m21 == nullptr || src.m25 == nullptr || src.m3 == nullptr || src.m7.get() == nullptr;
  auto t = utl::init_from<tgt_27_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "27_3");
  if (t) {
    CHECK(t->r0 == src.m1.get(), "init_from/address", "27_3 member 0");
    CHECK(&t->r1 == src.m13.get(), "init_from/address", "27_3 member 1");
    CHECK(&t->r2 == &src.m23, "init_from/address", "27_3 member 2");
    CHECK(&t->r3 == &src.m5, "init_from/address", "27_3 member 3");
    CHECK(t->r4 == src.m17, "init_from/address", "27_3 member 4");
    CHECK(t->r5 == src.m19.get(), "init_from/address", "27_3 member 5");
    CHECK(&t->r6 == src.m25, "init_from/address", "27_3 member 6");
    CHECK(&t->r7 == src.m3, "init_from/address", "27_3 member 7");
    CHECK(&t->r8 == src.m15.get(), "init_from/address", "27_3 member 8");
    CHECK(&t->r9 == &src.m9, "init_from/address", "27_3 member 9");
    CHECK(&t->r10 == src.m7.get(), "init_from/address", "27_3 member 10");
    CHECK(&t->r11 == &src.m11, "init_from/address", "27_3 member 11");
    CHECK(&t->r12 == src.m0.get(), "init_from/address", "27_3 member 12");
    CHECK(&t->r13 == src.m21, "init_from/address", "27_3 member 13");
    c.count("init-members", 14);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), src.m8.get(), &src.m9, &src.m10, &src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17, src.m18, src.m19.get(), src.m20.get(), src.m21, src.m22, &src.m23, &src.m24, src.m25, src.m26), "init_from/source-changed", "27_3");
  c.count("inits"); c.distinct(vf::hcomb(111, s.pattern));
}
struct src_28_2 {
  T<0>* m0;
  T<0>* m1;
  uniq<T<1>> m2;
  uniq<T<1>> m3;
  T<2> m4;
  T<2> m5;
  uniq<T<3>> m6;
  uniq<T<3>> m7;
  T<4> m8;
  T<4> m9;
  T<5> m10;
  T<5> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  std::shared_ptr<T<7>> m14;
  std::shared_ptr<T<7>> m15;
  T<8> m16;
  T<8> m17;
  T<9> m18;
  T<9> m19;
  T<10>* m20;
  T<10>* m21;
  uniq<T<11>> m22;
  uniq<T<11>> m23;
  std::shared_ptr<T<12>> m24;
  std::shared_ptr<T<12>> m25;
  std::shared_ptr<T<13>> m26;
  std::shared_ptr<T<13>> m27;
};
struct tgt_28_2_0 {
  T<5>& r0;
  T<7>* r1;
  T<10>& r2;
  T<1>* r3;
  T<4>& r4;
  T<8>& r5;
  T<12>& r6;
  T<9>& r7;
  T<13>* r8;
  T<2>& r9;
  T<3>& r10;
  T<6>& r11;
  T<0>* r12;
  T<11>* r13;
};
void run_28_2(vf::ctx& c) {
  store s{c}; src_28_2 src{s.ptr<0>(), s.ptr<0>(), s.uptr<1>(), s.uptr<1>(), s.direct<2>(), s.direct<2>(), s.uptr<3>(), s.uptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.sptr<7>(), s.sptr<7>(), s.direct<8>(), s.direct<8>(), s.direct<9>(), s.direct<9>(), s.ptr<10>(), s.ptr<10>(), s.uptr<11>(), s.uptr<11>(), s.sptr<12>(), s.sptr<12>(), s.sptr<13>(), s.sptr<13>()};
  auto const before = snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6.get(), src.m7.get(), &src.m8, &src.m9, &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), &src.m16, &src.m17, &src.m18, &src.m19, src.m20, src.m21, src.m22.get(), src.m23.get(), src.m24.get(), src.m25.get(), src.m26.get(), src.m27.get());
  {
  bool const none = src.m12.get() == nullptr || src.m20 == nullptr || src.m24.get() == nullptr || src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_28_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "28_2");
  if (t) {
    CHECK(&t->r0 == &src.m10, "init_from/address", "28_2 member 0");
    CHECK(t->r1 == src.m14.get(), "init_from/address", "28_2 member 1");
    CHECK(&t->r2 == src.m20, "init_from/address", "28_2 member 2");
    CHECK(t->r3 == src.m2.get(), "init_from/address", "28_2 member 3");
    CHECK(&t->r4 == &src.m8, "init_from/address", "28_2 member 4");
    CHECK(&t->r5 == &src.m16, "init_from/address", "28_2 member 5");
    CHECK(&t->r6 == src.m24.get(), "init_from/address", "28_2 member 6");
    CHECK(&t->r7 == &src.m18, "init_from/address", "28_2 member 7");
    CHECK(t->r8 == src.m26.get(), "init_from/address", "28_2 member 8");
    CHECK(&t->r9 == &src.m4, "init_from/address", "28_2 member 9");
    CHECK(&t->r10 == src.m6.get(), "init_from/address", "28_2 member 10");
    CHECK(&t->r11 == src.m12.get(), "init_from/address", "28_2 member 11");
    CHECK(t->r12 == src.m0, "init_from/address", "28_2 member 12");
    CHECK(t->r13 == src.m22.get(), "init_from/address", "28_2 member 13");
    c.count("init-members", 14);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6.get(), src.m7.get(), &src.m8, &src.m9, &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), &src.m16, &src.m17, &src.m18, &src.m19, src.m20, src.m21, src.m22.get(), src.m23.get(), src.m24.get(), src.m25.get(), src.m26.get(), src.m27.get()), "init_from/source-changed", "28_2");
  c.count("inits"); c.distinct(vf::hcomb(114, s.pattern));
}
struct src_28_3 {
  uniq<T<0>> m0;
  T<1>* m1;
  T<1>* m2;
  T<2> m3;
  T<2> m4;
  T<3>* m5;
  T<3>* m6;
  T<4>* m7;
  T<4>* m8;
  T<5> m9;
  T<5> m10;
  uniq<T<6>> m11;
  uniq<T<6>> m12;
  std::shared_ptr<T<7>> m13;
  std::shared_ptr<T<7>> m14;
  std::shared_ptr<T<8>> m15;
  std::shared_ptr<T<8>> m16;
  std::shared_ptr<T<9>> m17;
  std::shared_ptr<T<9>> m18;
  uniq<T<10>> m19;
  uniq<T<10>> m20;
  T<11> m21;
  T<11> m22;
  uniq<T<12>> m23;
  uniq<T<12>> m24;
  T<13> m25;
  T<13> m26;
  T<14> m27;
};
struct tgt_28_3_0 {
  T<4>* r0;
  T<11>& r1;
  T<10>& r2;
  T<5>& r3;
  T<14>& r4;
  T<1>& r5;
  T<13>& r6;
  T<3>* r7;
  T<2>& r8;
  T<9>& r9;
  T<6>& r10;
  T<8>& r11;
  T<0>& r12;
  T<12>& r13;
  T<7>* r14;
};
void run_28_3(vf::ctx& c) {
  store s{c}; src_28_3 src{s.uptr<0>(), s.ptr<1>(), s.ptr<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.ptr<4>(), s.ptr<4>(), s.direct<5>(), s.direct<5>(), s.uptr<6>(), s.uptr<6>(), s.sptr<7>(), s.sptr<7>(), s.sptr<8>(), s.sptr<8>(), s.sptr<9>(), s.sptr<9>(), s.uptr<10>(), s.uptr<10>(), s.direct<11>(), s.direct<11>(), s.uptr<12>(), s.uptr<12>(), s.direct<13>(), s.direct<13>(), s.direct<14>()};
  auto const before = snapshot(src.m0.get(), src.m1, src.m2, &src.m3, &src.m4, src.m5, src.m6, src.m7, src.m8, &src.m9, &src.m10, src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17.get(), src.m18.get(), src.m19.get(), src.m20.get(), &src.m21, &src.m22, src.m23.get(), src.m24.get(), &src.m25, &src.m26, &src.m27);
  {
  bool const none = src.m0.get() == nullptr || src.m1 == nullptr || src.m11.get() == nullptr || src.m15.get() == nullptr || src.m17.get() == nullptr || src.m19.get() == nullptr || src.m23.get() == nullptr;
  auto t = utl::init_from<tgt_28_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "28_3");
  if (t) {
    CHECK(t->r0 == src.m7, "init_from/address", "28_3 member 0");
    CHECK(&t->r1 == &src.m21, "init_from/address", "28_3 member 1");
    CHECK(&t->r2 == src.m19.get(), "init_from/address", "28_3 member 2");
    CHECK(&t->r3 == &src.m9, "init_from/address", "28_3 member 3");
    CHECK(&t->r4 == &src.m27, "init_from/address", "28_3 member 4");
    CHECK(&t->r5 == src.m1, "init_from/address", "28_3 member 5");
    CHECK(&t->r6 == &src.m25, "init_from/address", "28_3 member 6");
    CHECK(t->r7 == src.m5, "init_from/address", "28_3 member 7");
    CHECK(&t->r8 == &src.m3, "init_from/address", "28_3 member 8");
    CHECK(&t->r9 == src.m17.get(), "init_from/address", "28_3 member 9");
    CHECK(&t->r10 == src.m11.get(), "init_from/address", "28_3 member 10");
    CHECK(&t->r11 == src.m15.get(), "init_from/address", "28_3 member 11");
    CHECK(&t->r12 == src.m0.get(), "init_from/address", "28_3 member 12");
    CHECK(&t->r13 == src.m23.get(), "init_from/address", "28_3 member 13");
    CHECK(t->r14 == src.m13.get(), "init_from/address", "28_3 member 14");
    c.count("init-members", 15);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1, src.m2, &src.m3, &src.m4, src.m5, src.m6, src.m7, src.m8, &src.m9, &src.m10, src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17.get(), src.m18.get(), src.m19.get(), src.m20.get(), &src.m21, &src.m22, src.m23.get(), src.m24.get(), &src.m25, &src.m26, &src.m27), "init_from/source-changed", "28_3");
  c.count("inits"); c.distinct(vf::hcomb(115, s.pattern));
}
struct src_29_2 {
  uniq<T<0>> m0;
  uniq<T<0>> m1;
  T<1> m2;
  T<1> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  T<3> m6;
  T<3> m7;
  T<4>* m8;
  T<4>* m9;
  T<5> m10;
  T<5> m11;
  T<6> m12;
  T<6> m13;
  T<7> m14;
  T<7> m15;
  uniq<T<8>> m16;
  uniq<T<8>> m17;
  T<9> m18;
  T<9> m19;
  T<10> m20;
  T<10> m21;
  T<11> m22;
  T<11> m23;
  T<12>* m24;
  T<12>* m25;
  T<13> m26;
  T<13> m27;
  T<14> m28;
};
struct tgt_29_2_0 {
  T<3>& r0;
  T<5>& r1;
  T<2>* r2;
  T<12>& r3;
  T<9>& r4;
  T<0>* r5;
  T<6>& r6;
  T<10>& r7;
  T<7>& r8;
  T<11>& r9;
  T<8>* r10;
  T<1>& r11;
  T<14>& r12;
  T<13>& r13;
  T<4>* r14;
};
void run_29_2(vf::ctx& c) {
  store s{c}; src_29_2 src{s.uptr<0>(), s.uptr<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.direct<3>(), s.direct<3>(), s.ptr<4>(), s.ptr<4>(), s.direct<5>(), s.direct<5>(), s.direct<6>(), s.direct<6>(), s.direct<7>(), s.direct<7>(), s.uptr<8>(), s.uptr<8>(), s.direct<9>(), s.direct<9>(), s.direct<10>(), s.direct<10>(), s.direct<11>(), s.direct<11>(), s.ptr<12>(), s.ptr<12>(), s.direct<13>(), s.direct<13>(), s.direct<14>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8, src.m9, &src.m10, &src.m11, &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), &src.m18, &src.m19, &src.m20, &src.m21, &src.m22, &src.m23, src.m24, src.m25, &src.m26, &src.m27, &src.m28);
  {
  bool const none = src.m24 == nullptr;
  auto t = utl::init_from<tgt_29_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "29_2");
  if (t) {
    CHECK(&t->r0 == &src.m6, "init_from/address", "29_2 member 0");
    CHECK(&t->r1 == &src.m10, "init_from/address", "29_2 member 1");
    CHECK(t->r2 == src.m4.get(), "init_from/address", "29_2 member 2");
    CHECK(&t->r3 == src.m24, "init_from/address", "29_2 member 3");
    CHECK(&t->r4 == &src.m18, "init_from/address", "29_2 member 4");
    CHECK(t->r5 == src.m0.get(), "init_from/address", "29_2 member 5");
    CHECK(&t->r6 == &src.m12, "init_from/address", "29_2 member 6");
    CHECK(&t->r7 == &src.m20, "init_from/address", "29_2 member 7");
    CHECK(&t->r8 == &src.m14, "init_from/address", "29_2 member 8");
    CHECK(&t->r9 == &src.m22, "init_from/address", "29_2 member 9");
    CHECK(t->r10 == src.m16.get(), "init_from/address", "29_2 member 10");
    CHECK(&t->r11 == &src.m2, "init_from/address", "29_2 member 11");
    CHECK(&t->r12 == &src.m28, "init_from/address", "29_2 member 12");
    CHECK(&t->r13 == &src.m26, "init_from/address", "29_2 member 13");
    CHECK(t->r14 == src.m8, "init_from/address", "29_2 member 14");
    c.count("init-members", 15);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8, src.m9, &src.m10, &src.m11, &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), &src.m18, &src.m19, &src.m20, &src.m21, &src.m22, &src.m23, src.m24, src.m25, &src.m26, &src.m27, &src.m28), "init_from/source-changed", "29_2");
  c.count("inits"); c.distinct(vf::hcomb(118, s.pattern));
}
struct src_29_3 {
  T<0> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  T<2> m3;
  T<2> m4;
  T<3>* m5;
  T<3>* m6;
  T<4> m7;
  T<4> m8;
  uniq<T<5>> m9;
  uniq<T<5>> m10;
  T<6> m11;
  T<6> m12;
  T<7>* m13;
  T<7>* m14;
  T<8>* m15;
  T<8>* m16;
  uniq<T<9>> m17;
  uniq<T<9>> m18;
  uniq<T<10>> m19;
  uniq<T<10>> m20;
  std::shared_ptr<T<11>> m21;
  std::shared_ptr<T<11>> m22;
  uniq<T<12>> m23;
  uniq<T<12>> m24;
  T<13>* m25;
  T<13>* m26;
  T<14>* m27;
  T<14>* m28;
};
struct tgt_29_3_0 {
  T<14>& r0;
  T<9>& r1;
  T<12>& r2;
  T<11>* r3;
  T<6>& r4;
  T<1>& r5;
  T<3>& r6;
  T<10>& r7;
  T<0>& r8;
  T<13>& r9;
  T<2>& r10;
  T<4>& r11;
  T<7>* r12;
  T<5>& r13;
  T<8>& r14;
};
void run_29_3(vf::ctx& c) {
  store s{c}; src_29_3 src{s.direct<0>(), s.sptr<1>(), s.sptr<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.direct<4>(), s.direct<4>(), s.uptr<5>(), s.uptr<5>(), s.direct<6>(), s.direct<6>(), s.ptr<7>(), s.ptr<7>(), s.ptr<8>(), s.ptr<8>(), s.uptr<9>(), s.uptr<9>(), s.uptr<10>(), s.uptr<10>(), s.sptr<11>(), s.sptr<11>(), s.uptr<12>(), s.uptr<12>(), s.ptr<13>(), s.ptr<13>(), s.ptr<14>(), s.ptr<14>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, src.m5, src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), &src.m11, &src.m12, src.m13, src.m14, src.m15, src.m16, src.m17.get(), src.m18.get(), src.m19.get(), src.m20.get(), src.m21.get(), src.m22.get(), src.m23.get(), src.m24.get(), src.m25, src.m26, src.m27, src.m28);
  {
  bool const none = src.m1.get() == nullptr || src.m15 == nullptr || src.m17.get() == nullptr || src.m19.get() == nullptr || src.m23.get() == nullptr || src.m25 == nullptr || src.m27 == nullptr || src.m5 == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_29_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "29_3");
  if (t) {
    CHECK(&t->r0 == src.m27, "init_from/address", "29_3 member 0");
    CHECK(&t->r1 == src.m17.get(), "init_from/address", "29_3 member 1");
    CHECK(&t->r2 == src.m23.get(), "init_from/address", "29_3 member 2");
    CHECK(t->r3 == src.m21.get(), "init_from/address", "29_3 member 3");
    CHECK(&t->r4 == &src.m11, "init_from/address", "29_3 member 4");
    CHECK(&t->r5 == src.m1.get(), "init_from/address", "29_3 member 5");
    CHECK(&t->r6 == src.m5, "init_from/address", "29_3 member 6");
    CHECK(&t->r7 == src.m19.get(), "init_from/address", "29_3 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "29_3 member 8");
    CHECK(&t->r9 == src.m25, "init_from/address", "29_3 member 9");
    CHECK(&t->r10 == &src.m3, "init_from/address", "29_3 member 10");
    CHECK(&t->r11 == &src.m7, "init_from/address", "29_3 member 11");
    CHECK(t->r12 == src.m13, "init_from/address", "29_3 member 12");
    CHECK(&t->r13 == src.m9.get(), "init_from/address", "29_3 member 13");
    CHECK(&t->r14 == src.m15, "init_from/address", "29_3 member 14");
    c.count("init-members", 15);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, src.m5, src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), &src.m11, &src.m12, src.m13, src.m14, src.m15, src.m16, src.m17.get(), src.m18.get(), src.m19.get(), src.m20.get(), src.m21.get(), src.m22.get(), src.m23.get(), src.m24.get(), src.m25, src.m26, src.m27, src.m28), "init_from/source-changed", "29_3");
  c.count("inits"); c.distinct(vf::hcomb(119, s.pattern));
}
struct src_30_2 {
  uniq<T<0>> m0;
  uniq<T<0>> m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  T<2>* m4;
  T<2>* m5;
  std::shared_ptr<T<3>> m6;
  std::shared_ptr<T<3>> m7;
  uniq<T<4>> m8;
  uniq<T<4>> m9;
  T<5>* m10;
  T<5>* m11;
  T<6> m12;
  T<6> m13;
  T<7> m14;
  T<7> m15;
  uniq<T<8>> m16;
  uniq<T<8>> m17;
  T<9>* m18;
  T<9>* m19;
  T<10> m20;
  T<10> m21;
  std::shared_ptr<T<11>> m22;
  std::shared_ptr<T<11>> m23;
  uniq<T<12>> m24;
  uniq<T<12>> m25;
  T<13> m26;
  T<13> m27;
  uniq<T<14>> m28;
  uniq<T<14>> m29;
};
struct tgt_30_2_0 {
  T<9>& r0;
  T<7>& r1;
  T<6>& r2;
  T<5>& r3;
  T<12>& r4;
  T<14>& r5;
  T<13>& r6;
  T<11>* r7;
  T<8>* r8;
  T<4>& r9;
  T<3>& r10;
  T<0>& r11;
  T<10>& r12;
  T<1>& r13;
  T<2>& r14;
};
void run_30_2(vf::ctx& c) {
  store s{c}; src_30_2 src{s.uptr<0>(), s.uptr<0>(), s.sptr<1>(), s.sptr<1>(), s.ptr<2>(), s.ptr<2>(), s.sptr<3>(), s.sptr<3>(), s.uptr<4>(), s.uptr<4>(), s.ptr<5>(), s.ptr<5>(), s.direct<6>(), s.direct<6>(), s.direct<7>(), s.direct<7>(), s.uptr<8>(), s.uptr<8>(), s.ptr<9>(), s.ptr<9>(), s.direct<10>(), s.direct<10>(), s.sptr<11>(), s.sptr<11>(), s.uptr<12>(), s.uptr<12>(), s.direct<13>(), s.direct<13>(), s.uptr<14>(), s.uptr<14>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4, src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), src.m10, src.m11, &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), src.m18, src.m19, &src.m20, &src.m21, src.m22.get(), src.m23.get(), src.m24.get(), src.m25.get(), &src.m26, &src.m27, src.m28.get(), src.m29.get());
  {
  bool const none = src.m0.get() == nullptr || src.m10 == nullptr || src.m18 == nullptr || src.m2.get() == nullptr || src.m24.get() == nullptr || src.m28.get() == nullptr || src.m4 == nullptr || src.m6.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_30_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "30_2");
  if (t) {
    CHECK(&t->r0 == src.m18, "init_from/address", "30_2 member 0");
    CHECK(&t->r1 == &src.m14, "init_from/address", "30_2 member 1");
    CHECK(&t->r2 == &src.m12, "init_from/address", "30_2 member 2");
    CHECK(&t->r3 == src.m10, "init_from/address", "30_2 member 3");
    CHECK(&t->r4 == src.m24.get(), "init_from/address", "30_2 member 4");
    CHECK(&t->r5 == src.m28.get(), "init_from/address", "30_2 member 5");
    CHECK(&t->r6 == &src.m26, "init_from/address", "30_2 member 6");
    CHECK(t->r7 == src.m22.get(), "init_from/address", "30_2 member 7");
    CHECK(t->r8 == src.m16.get(), "init_from/address", "30_2 member 8");
    CHECK(&t->r9 == src.m8.get(), "init_from/address", "30_2 member 9");
    CHECK(&t->r10 == src.m6.get(), "init_from/address", "30_2 member 10");
    CHECK(&t->r11 == src.m0.get(), "init_from/address", "30_2 member 11");
    CHECK(&t->r12 == &src.m20, "init_from/address", "30_2 member 12");
    CHECK(&t->r13 == src.m2.get(), "init_from/address", "30_2 member 13");
    CHECK(&t->r14 == src.m4, "init_from/address", "30_2 member 14");
    c.count("init-members", 15);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4, src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), src.m10, src.m11, &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), src.m18, src.m19, &src.m20, &src.m21, src.m22.get(), src.m23.get(), src.m24.get(), src.m25.get(), &src.m26, &src.m27, src.m28.get(), src.m29.get()), "init_from/source-changed", "30_2");
  c.count("inits"); c.distinct(vf::hcomb(122, s.pattern));
}
struct src_30_3 {
  uniq<T<0>> m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  T<4> m7;
  T<4> m8;
  std::shared_ptr<T<5>> m9;
  std::shared_ptr<T<5>> m10;
  std::shared_ptr<T<6>> m11;
  std::shared_ptr<T<6>> m12;
  T<7> m13;
  T<7> m14;
  T<8> m15;
  T<8> m16;
  T<9> m17;
  T<9> m18;
  T<10>* m19;
  T<10>* m20;
  T<11> m21;
  T<11> m22;
  T<12> m23;
  T<12> m24;
  std::shared_ptr<T<13>> m25;
  std::shared_ptr<T<13>> m26;
  T<14> m27;
  T<14> m28;
  std::shared_ptr<T<15>> m29;
};
struct tgt_30_3_0 {
  T<12>& r0;
  T<6>& r1;
  T<8>& r2;
  T<15>& r3;
  T<3>* r4;
  T<14>& r5;
  T<10>* r6;
  T<7>& r7;
  T<13>& r8;
  T<11>& r9;
  T<4>& r10;
  T<0>& r11;
  T<1>& r12;
  T<9>& r13;
  T<2>& r14;
  T<5>& r15;
};
void run_30_3(vf::ctx& c) {
  store s{c}; src_30_3 src{s.uptr<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.direct<4>(), s.direct<4>(), s.sptr<5>(), s.sptr<5>(), s.sptr<6>(), s.sptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.direct<9>(), s.direct<9>(), s.ptr<10>(), s.ptr<10>(), s.direct<11>(), s.direct<11>(), s.direct<12>(), s.direct<12>(), s.sptr<13>(), s.sptr<13>(), s.direct<14>(), s.direct<14>(), s.sptr<15>()};
  auto const before = snapshot(src.m0.get(), &src.m1, &src.m2, &src.m3, &src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11.get(), src.m12.get(), &src.m13, &src.m14, &src.m15, &src.m16, &src.m17, &src.m18, src.m19, src.m20, &src.m21, &src.m22, &src.m23, &src.m24, src.m25.get(), src.m26.get(), &src.m27, &src.m28, src.m29.get());
  {
  bool const none = src.m0.get() == nullptr || src.m11.get() == nullptr || src.m25.get() == nullptr || src.m29.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_30_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "30_3");
  if (t) {
    CHECK(&t->r0 == &src.m23, "init_from/address", "30_3 member 0");
    CHECK(&t->r1 == src.m11.get(), "init_from/address", "30_3 member 1");
    CHECK(&t->r2 == &src.m15, "init_from/address", "30_3 member 2");
    CHECK(&t->r3 == src.m29.get(), "init_from/address", "30_3 member 3");
    CHECK(t->r4 == src.m5.get(), "init_from/address", "30_3 member 4");
    CHECK(&t->r5 == &src.m27, "init_from/address", "30_3 member 5");
    CHECK(t->r6 == src.m19, "init_from/address", "30_3 member 6");
    CHECK(&t->r7 == &src.m13, "init_from/address", "30_3 member 7");
    CHECK(&t->r8 == src.m25.get(), "init_from/address", "30_3 member 8");
    CHECK(&t->r9 == &src.m21, "init_from/address", "30_3 member 9");
    CHECK(&t->r10 == &src.m7, "init_from/address", "30_3 member 10");
    CHECK(&t->r11 == src.m0.get(), "init_from/address", "30_3 member 11");
    CHECK(&t->r12 == &src.m1, "init_from/address", "30_3 member 12");
    CHECK(&t->r13 == &src.m17, "init_from/address", "30_3 member 13");
    CHECK(&t->r14 == &src.m3, "init_from/address", "30_3 member 14");
    CHECK(&t->r15 == src.m9.get(), "init_from/address", "30_3 member 15");
    c.count("init-members", 16);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, &src.m2, &src.m3, &src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11.get(), src.m12.get(), &src.m13, &src.m14, &src.m15, &src.m16, &src.m17, &src.m18, src.m19, src.m20, &src.m21, &src.m22, &src.m23, &src.m24, src.m25.get(), src.m26.get(), &src.m27, &src.m28, src.m29.get()), "init_from/source-changed", "30_3");
  c.count("inits"); c.distinct(vf::hcomb(123, s.pattern));
}
struct src_31_2 {
  uniq<T<0>> m0;
  uniq<T<0>> m1;
  T<1>* m2;
  T<1>* m3;
  T<2>* m4;
  T<2>* m5;
  T<3> m6;
  T<3> m7;
  T<4> m8;
  T<4> m9;
  uniq<T<5>> m10;
  uniq<T<5>> m11;
  uniq<T<6>> m12;
  uniq<T<6>> m13;
  T<7> m14;
  T<7> m15;
  T<8> m16;
  T<8> m17;
  T<9> m18;
  T<9> m19;
  T<10> m20;
  T<10> m21;
  T<11> m22;
  T<11> m23;
  std::shared_ptr<T<12>> m24;
  std::shared_ptr<T<12>> m25;
  T<13>* m26;
  T<13>* m27;
  uniq<T<14>> m28;
  uniq<T<14>> m29;
  uniq<T<15>> m30;
};
struct tgt_31_2_0 {
  T<6>& r0;
  T<7>& r1;
  T<9>& r2;
  T<2>* r3;
  T<3>& r4;
  T<5>& r5;
  T<13>* r6;
  T<11>& r7;
  T<15>& r8;
  T<12>& r9;
  T<14>* r10;
  T<0>* r11;
  T<10>& r12;
  T<1>& r13;
  T<8>& r14;
  T<4>& r15;
};
void run_31_2(vf::ctx& c) {
  store s{c}; src_31_2 src{s.uptr<0>(), s.uptr<0>(), s.ptr<1>(), s.ptr<1>(), s.ptr<2>(), s.ptr<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.uptr<5>(), s.uptr<5>(), s.uptr<6>(), s.uptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.direct<9>(), s.direct<9>(), s.direct<10>(), s.direct<10>(), s.direct<11>(), s.direct<11>(), s.sptr<12>(), s.sptr<12>(), s.ptr<13>(), s.ptr<13>(), s.uptr<14>(), s.uptr<14>(), s.uptr<15>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2, src.m3, src.m4, src.m5, &src.m6, &src.m7, &src.m8, &src.m9, src.m10.get(), src.m11.get(), src.m12.get(), src.m13.get(), &src.m14, &src.m15, &src.m16, &src.m17, &src.m18, &src.m19, &src.m20, &src.m21, &src.m22, &src.m23, src.m24.get(), src.m25.get(), src.m26, src.m27, src.m28.get(), src.m29.get(), src.m30.get());
  {
  bool const none = src.m10.get() == nullptr || src.m12.get() == nullptr || src.m2 == nullptr || src.m24.get() == nullptr || src.m30.get() == nullptr;
  auto t = utl::init_from<tgt_31_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "31_2");
  if (t) {
    CHECK(&t->r0 == src.m12.get(), "init_from/address", "31_2 member 0");
    CHECK(&t->r1 == &src.m14, "init_from/address", "31_2 member 1");
    CHECK(&t->r2 == &src.m18, "init_from/address", "31_2 member 2");
    CHECK(t->r3 == src.m4, "init_from/address", "31_2 member 3");
    CHECK(&t->r4 == &src.m6, "init_from/address", "31_2 member 4");
    CHECK(&t->r5 == src.m10.get(), "init_from/address", "31_2 member 5");
    CHECK(t->r6 == src.m26, "init_from/address", "31_2 member 6");
    CHECK(&t->r7 == &src.m22, "init_from/address", "31_2 member 7");
    CHECK(&t->r8 == src.m30.get(), "init_from/address", "31_2 member 8");
    CHECK(&t->r9 == src.m24.get(), "init_from/address", "31_2 member 9");
    CHECK(t->r10 == src.m28.get(), "init_from/address", "31_2 member 10");
    CHECK(t->r11 == src.m0.get(), "init_from/address", "31_2 member 11");
    CHECK(&t->r12 == &src.m20, "init_from/address", "31_2 member 12");
    CHECK(&t->r13 == src.m2, "init_from/address", "31_2 member 13");
    CHECK(&t->r14 == &src.m16, "init_from/address", "31_2 member 14");
    CHECK(&t->r15 == &src.m8, "init_from/address", "31_2 member 15");
    c.count("init-members", 16);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2, src.m3, src.m4, src.m5, &src.m6, &src.m7, &src.m8, &src.m9, src.m10.get(), src.m11.get(), src.m12.get(), src.m13.get(), &src.m14, &src.m15, &src.m16, &src.m17, &src.m18, &src.m19, &src.m20, &src.m21, &src.m22, &src.m23, src.m24.get(), src.m25.get(), src.m26, src.m27, src.m28.get(), src.m29.get(), src.m30.get()), "init_from/source-changed", "31_2");
  c.count("inits"); c.distinct(vf::hcomb(126, s.pattern));
}
struct src_31_3 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  uniq<T<2>> m3;
  uniq<T<2>> m4;
  T<3> m5;
  T<3> m6;
  T<4> m7;
  T<4> m8;
  std::shared_ptr<T<5>> m9;
  std::shared_ptr<T<5>> m10;
  T<6>* m11;
  T<6>* m12;
  T<7> m13;
  T<7> m14;
  T<8> m15;
  T<8> m16;
  uniq<T<9>> m17;
  uniq<T<9>> m18;
  T<10>* m19;
  T<10>* m20;
  T<11> m21;
  T<11> m22;
  uniq<T<12>> m23;
  uniq<T<12>> m24;
  std::shared_ptr<T<13>> m25;
  std::shared_ptr<T<13>> m26;
  T<14> m27;
  T<14> m28;
  std::shared_ptr<T<15>> m29;
  std::shared_ptr<T<15>> m30;
};
struct tgt_31_3_0 {
  T<3>& r0;
  T<5>& r1;
  T<6>& r2;
  T<10>* r3;
  T<4>& r4;
  T<11>& r5;
  T<7>& r6;
  T<2>& r7;
  T<1>* r8;
  T<0>& r9;
  T<8>& r10;
  T<14>& r11;
  T<9>* r12;
  T<15>& r13;
  T<13>& r14;
  T<12>& r15;
};
void run_31_3(vf::ctx& c) {
  store s{c}; src_31_3 src{s.sptr<0>(), s.sptr<1>(), s.sptr<1>(), s.uptr<2>(), s.uptr<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.sptr<5>(), s.sptr<5>(), s.ptr<6>(), s.ptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.uptr<9>(), s.uptr<9>(), s.ptr<10>(), s.ptr<10>(), s.direct<11>(), s.direct<11>(), s.uptr<12>(), s.uptr<12>(), s.sptr<13>(), s.sptr<13>(), s.direct<14>(), s.direct<14>(), s.sptr<15>(), s.sptr<15>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), &src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11, src.m12, &src.m13, &src.m14, &src.m15, &src.m16, src.m17.get(), src.m18.get(), src.m19, src.m20, &src.m21, &src.m22, src.m23.get(), src.m24.get(), src.m25.get(), src.m26.get(), &src.m27, &src.m28, src.m29.get(), src.m30.get());
  {
  bool const none = src.m0.get() == nullptr || src.m11 == nullptr || src.m23.get() == nullptr || src.m25.get() == nullptr || src.m29.get() == nullptr || src.m3.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_31_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "31_3");
  if (t) {
    CHECK(&t->r0 == &src.m5, "init_from/address", "31_3 member 0");
    CHECK(&t->r1 == src.m9.get(), "init_from/address", "31_3 member 1");
    CHECK(&t->r2 == src.m11, "init_from/address", "31_3 member 2");
    CHECK(t->r3 == src.m19, "init_from/address", "31_3 member 3");
    CHECK(&t->r4 == &src.m7, "init_from/address", "31_3 member 4");
    CHECK(&t->r5 == &src.m21, "init_from/address", "31_3 member 5");
    CHECK(&t->r6 == &src.m13, "init_from/address", "31_3 member 6");
    CHECK(&t->r7 == src.m3.get(), "init_from/address", "31_3 member 7");
    CHECK(t->r8 == src.m1.get(), "init_from/address", "31_3 member 8");
    CHECK(&t->r9 == src.m0.get(), "init_from/address", "31_3 member 9");
    CHECK(&t->r10 == &src.m15, "init_from/address", "31_3 member 10");
    CHECK(&t->r11 == &src.m27, "init_from/address", "31_3 member 11");
    CHECK(t->r12 == src.m17.get(), "init_from/address", "31_3 member 12");
    CHECK(&t->r13 == src.m29.get(), "init_from/address", "31_3 member 13");
    CHECK(&t->r14 == src.m25.get(), "init_from/address", "31_3 member 14");
    CHECK(&t->r15 == src.m23.get(), "init_from/address", "31_3 member 15");
    c.count("init-members", 16);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), &src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11, src.m12, &src.m13, &src.m14, &src.m15, &src.m16, src.m17.get(), src.m18.get(), src.m19, src.m20, &src.m21, &src.m22, src.m23.get(), src.m24.get(), src.m25.get(), src.m26.get(), &src.m27, &src.m28, src.m29.get(), src.m30.get()), "init_from/source-changed", "31_3");
  c.count("inits"); c.distinct(vf::hcomb(127, s.pattern));
}
}  // namespace
SCENARIO(init_from_g, 840, 21000) {
  static void (*const fns[])(vf::ctx&) = {run_25_2, run_25_3, run_26_2, run_26_3, run_27_2, run_27_3, run_28_2, run_28_3, run_29_2, run_29_3, run_30_2, run_30_3, run_31_2, run_31_3};
  fns[c.idx % 14](c);
}
