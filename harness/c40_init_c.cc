// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_16_0 {
  T<7> m0;
  T<14> m1;
  T<13> m2;
  T<5> m3;
  std::shared_ptr<T<3>> m4;
  uniq<T<10>> m5;
  T<2> m6;
  uniq<T<1>> m7;
  uniq<T<6>> m8;
  T<11> m9;
  std::shared_ptr<T<0>> m10;
  T<4>* m11;
  std::shared_ptr<T<15>> m12;
  T<12>* m13;
  T<8> m14;
  T<9> m15;
};
struct tgt_16_0_0 {
  T<6>& r0;
  T<5>& r1;
  T<0>* r2;
  T<4>* r3;
  T<7>& r4;
  T<15>& r5;
  T<6>& r6;
  T<9>& r7;
  T<9>& r8;
  T<6>& r9;
  T<3>* r10;
  T<3>* r11;
};
void run_16_0(vf::ctx& c) {
  store s{c}; src_16_0 src{s.direct<7>(), s.direct<14>(), s.direct<13>(), s.direct<5>(), s.sptr<3>(), s.uptr<10>(), s.direct<2>(), s.uptr<1>(), s.uptr<6>(), s.direct<11>(), s.sptr<0>(), s.ptr<4>(), s.sptr<15>(), s.ptr<12>(), s.direct<8>(), s.direct<9>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, src.m7.get(), src.m8.get(), &src.m9, src.m10.get(), src.m11, src.m12.get(), src.m13, &src.m14, &src.m15);
  {
  bool const none = src.m12.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_16_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_0");
  if (t) {
    CHECK(&t->r0 == src.m8.get(), "init_from/address", "16_0 member 0");
    CHECK(&t->r1 == &src.m3, "init_from/address", "16_0 member 1");
    CHECK(t->r2 == src.m10.get(), "init_from/address", "16_0 member 2");
    CHECK(t->r3 == src.m11, "init_from/address", "16_0 member 3");
    CHECK(&t->r4 == &src.m0, "init_from/address", "16_0 member 4");
    CHECK(&t->r5 == src.m12.get(), "init_from/address", "16_0 member 5");
    CHECK(&t->r6 == src.m8.get(), "init_from/address", "16_0 member 6");
    CHECK(&t->r7 == &src.m15, "init_from/address", "16_0 member 7");
    CHECK(&t->r8 == &src.m15, "init_from/address", "16_0 member 8");
    CHECK(&t->r9 == src.m8.get(), "init_from/address", "16_0 member 9");
    CHECK(t->r10 == src.m4.get(), "init_from/address", "16_0 member 10");
    CHECK(t->r11 == src.m4.get(), "init_from/address", "16_0 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, src.m7.get(), src.m8.get(), &src.m9, src.m10.get(), src.m11, src.m12.get(), src.m13, &src.m14, &src.m15), "init_from/source-changed", "16_0");
  c.count("inits"); c.distinct(vf::hcomb(64, s.pattern));
}
struct src_17_0 {
  T<15> m0;
  T<10>* m1;
  T<12>* m2;
  uniq<T<14>> m3;
  T<2> m4;
  T<11> m5;
  T<0>* m6;
  T<13> m7;
  T<1> m8;
  uniq<T<4>> m9;
  std::shared_ptr<T<5>> m10;
  T<9> m11;
  T<8> m12;
  T<3>* m13;
  T<16> m14;
  T<7> m15;
  uniq<T<6>> m16;
};
struct tgt_17_0_0 {
  T<11>& r0;
  T<14>* r1;
  T<12>& r2;
  T<1>& r3;
  T<5>& r4;
  T<3>* r5;
  T<2>& r6;
  T<15>& r7;
  T<3>& r8;
  T<7>& r9;
  T<12>& r10;
  T<13>& r11;
  T<4>& r12;
};
void run_17_0(vf::ctx& c) {
  store s{c}; src_17_0 src{s.direct<15>(), s.ptr<10>(), s.ptr<12>(), s.uptr<14>(), s.direct<2>(), s.direct<11>(), s.ptr<0>(), s.direct<13>(), s.direct<1>(), s.uptr<4>(), s.sptr<5>(), s.direct<9>(), s.direct<8>(), s.ptr<3>(), s.direct<16>(), s.direct<7>(), s.uptr<6>()};
  auto const before = snapshot(&src.m0, src.m1, src.m2, src.m3.get(), &src.m4, &src.m5, src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), &src.m11, &src.m12, src.m13, &src.m14, &src.m15, src.m16.get());
  {
  bool const none = src.m10.get() == nullptr || src.m13 == nullptr || src.m2 == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_17_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "17_0");
  if (t) {
    CHECK(&t->r0 == &src.m5, "init_from/address", "17_0 member 0");
    CHECK(t->r1 == src.m3.get(), "init_from/address", "17_0 member 1");
    CHECK(&t->r2 == src.m2, "init_from/address", "17_0 member 2");
    CHECK(&t->r3 == &src.m8, "init_from/address", "17_0 member 3");
    CHECK(&t->r4 == src.m10.get(), "init_from/address", "17_0 member 4");
    CHECK(t->r5 == src.m13, "init_from/address", "17_0 member 5");
    CHECK(&t->r6 == &src.m4, "init_from/address", "17_0 member 6");
    CHECK(&t->r7 == &src.m0, "init_from/address", "17_0 member 7");
    CHECK(&t->r8 == src.m13, "init_from/address", "17_0 member 8");
    CHECK(&t->r9 == &src.m15, "init_from/address", "17_0 member 9");
    CHECK(&t->r10 == src.m2, "init_from/address", "17_0 member 10");
    CHECK(&t->r11 == &src.m7, "init_from/address", "17_0 member 11");
    CHECK(&t->r12 == src.m9.get(), "init_from/address", "17_0 member 12");
    c.count("init-members", 13);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1, src.m2, src.m3.get(), &src.m4, &src.m5, src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), &src.m11, &src.m12, src.m13, &src.m14, &src.m15, src.m16.get()), "init_from/source-changed", "17_0");
  c.count("inits"); c.distinct(vf::hcomb(68, s.pattern));
}
struct src_18_0 {
  T<15> m0;
  T<14>* m1;
  std::shared_ptr<T<0>> m2;
  T<17>* m3;
  T<3> m4;
  T<10> m5;
  T<13> m6;
  T<2> m7;
  T<12> m8;
  std::shared_ptr<T<1>> m9;
  std::shared_ptr<T<11>> m10;
  std::shared_ptr<T<6>> m11;
  T<16> m12;
  uniq<T<9>> m13;
  T<5>* m14;
  T<8> m15;
  T<7> m16;
  std::shared_ptr<T<4>> m17;
};
struct tgt_18_0_0 {
  T<1>* r0;
  T<7>& r1;
  T<15>& r2;
  T<12>& r3;
  T<15>& r4;
  T<16>& r5;
  T<5>& r6;
  T<16>& r7;
  T<13>& r8;
  T<9>* r9;
  T<5>& r10;
  T<8>& r11;
  T<1>& r12;
  T<14>* r13;
  T<2>& r14;
  T<7>& r15;
};
void run_18_0(vf::ctx& c) {
  store s{c}; src_18_0 src{s.direct<15>(), s.ptr<14>(), s.sptr<0>(), s.ptr<17>(), s.direct<3>(), s.direct<10>(), s.direct<13>(), s.direct<2>(), s.direct<12>(), s.sptr<1>(), s.sptr<11>(), s.sptr<6>(), s.direct<16>(), s.uptr<9>(), s.ptr<5>(), s.direct<8>(), s.direct<7>(), s.sptr<4>()};
  auto const before = snapshot(&src.m0, src.m1, src.m2.get(), src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11.get(), &src.m12, src.m13.get(), src.m14, &src.m15, &src.m16, src.m17.get());
  {
  bool const none = src.m14 == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_18_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "18_0");
  if (t) {
    CHECK(t->r0 == src.m9.get(), "init_from/address", "18_0 member 0");
    CHECK(&t->r1 == &src.m16, "init_from/address", "18_0 member 1");
    CHECK(&t->r2 == &src.m0, "init_from/address", "18_0 member 2");
    CHECK(&t->r3 == &src.m8, "init_from/address", "18_0 member 3");
    CHECK(&t->r4 == &src.m0, "init_from/address", "18_0 member 4");
    CHECK(&t->r5 == &src.m12, "init_from/address", "18_0 member 5");
    CHECK(&t->r6 == src.m14, "init_from/address", "18_0 member 6");
    CHECK(&t->r7 == &src.m12, "init_from/address", "18_0 member 7");
    CHECK(&t->r8 == &src.m6, "init_from/address", "18_0 member 8");
    CHECK(t->r9 == src.m13.get(), "init_from/address", "18_0 member 9");
    CHECK(&t->r10 == src.m14, "init_from/address", "18_0 member 10");
    CHECK(&t->r11 == &src.m15, "init_from/address", "18_0 member 11");
    CHECK(&t->r12 == src.m9.get(), "init_from/address", "18_0 member 12");
    CHECK(t->r13 == src.m1, "init_from/address", "18_0 member 13");
    CHECK(&t->r14 == &src.m7, "init_from/address", "18_0 member 14");
    CHECK(&t->r15 == &src.m16, "init_from/address", "18_0 member 15");
    c.count("init-members", 16);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1, src.m2.get(), src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11.get(), &src.m12, src.m13.get(), src.m14, &src.m15, &src.m16, src.m17.get()), "init_from/source-changed", "18_0");
  c.count("inits"); c.distinct(vf::hcomb(72, s.pattern));
}
struct src_19_0 {
  uniq<T<4>> m0;
  uniq<T<0>> m1;
  std::shared_ptr<T<14>> m2;
  T<2> m3;
  uniq<T<7>> m4;
  T<1> m5;
  T<3> m6;
  T<16>* m7;
  uniq<T<17>> m8;
  T<15> m9;
  std::shared_ptr<T<13>> m10;
  std::shared_ptr<T<9>> m11;
  uniq<T<6>> m12;
  uniq<T<8>> m13;
  std::shared_ptr<T<11>> m14;
  T<10> m15;
  T<12> m16;
  T<5> m17;
  T<18> m18;
};
struct tgt_19_0_0 {
  T<18>& r0;
  T<8>* r1;
  T<7>& r2;
  T<15>& r3;
  T<17>* r4;
  T<4>& r5;
  T<18>& r6;
  T<16>& r7;
  T<13>& r8;
  T<17>& r9;
  T<0>* r10;
  T<7>& r11;
  T<2>& r12;
  T<17>& r13;
  T<1>& r14;
  T<10>& r15;
  T<12>& r16;
};
void run_19_0(vf::ctx& c) {
  store s{c}; src_19_0 src{s.uptr<4>(), s.uptr<0>(), s.sptr<14>(), s.direct<2>(), s.uptr<7>(), s.direct<1>(), s.direct<3>(), s.ptr<16>(), s.uptr<17>(), s.direct<15>(), s.sptr<13>(), s.sptr<9>(), s.uptr<6>(), s.uptr<8>(), s.sptr<11>(), s.direct<10>(), s.direct<12>(), s.direct<5>(), s.direct<18>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), &src.m3, src.m4.get(), &src.m5, &src.m6, src.m7, src.m8.get(), &src.m9, src.m10.get(), src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, &src.m16, &src.m17, &src.m18);
  {
  bool const none = src.m0.get() == nullptr || src.m10.get() == nullptr || src.m4.get() == nullptr || src.m7 == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_19_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "19_0");
  if (t) {
    CHECK(&t->r0 == &src.m18, "init_from/address", "19_0 member 0");
    CHECK(t->r1 == src.m13.get(), "init_from/address", "19_0 member 1");
    CHECK(&t->r2 == src.m4.get(), "init_from/address", "19_0 member 2");
    CHECK(&t->r3 == &src.m9, "init_from/address", "19_0 member 3");
    CHECK(t->r4 == src.m8.get(), "init_from/address", "19_0 member 4");
    CHECK(&t->r5 == src.m0.get(), "init_from/address", "19_0 member 5");
    CHECK(&t->r6 == &src.m18, "init_from/address", "19_0 member 6");
    CHECK(&t->r7 == src.m7, "init_from/address", "19_0 member 7");
    CHECK(&t->r8 == src.m10.get(), "init_from/address", "19_0 member 8");
    CHECK(&t->r9 == src.m8.get(), "init_from/address", "19_0 member 9");
    CHECK(t->r10 == src.m1.get(), "init_from/address", "19_0 member 10");
    CHECK(&t->r11 == src.m4.get(), "init_from/address", "19_0 member 11");
    CHECK(&t->r12 == &src.m3, "init_from/address", "19_0 member 12");
    CHECK(&t->r13 == src.m8.get(), "init_from/address", "19_0 member 13");
    CHECK(&t->r14 == &src.m5, "init_from/address", "19_0 member 14");
    CHECK(&t->r15 == &src.m15, "init_from/address", "19_0 member 15");
    CHECK(&t->r16 == &src.m16, "init_from/address", "19_0 member 16");
    c.count("init-members", 17);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), &src.m3, src.m4.get(), &src.m5, &src.m6, src.m7, src.m8.get(), &src.m9, src.m10.get(), src.m11.get(), src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, &src.m16, &src.m17, &src.m18), "init_from/source-changed", "19_0");
  c.count("inits"); c.distinct(vf::hcomb(76, s.pattern));
}
struct src_20_0 {
  uniq<T<6>> m0;
  std::shared_ptr<T<10>> m1;
  T<14>* m2;
  std::shared_ptr<T<4>> m3;
  T<5>* m4;
  T<15> m5;
  T<16>* m6;
  std::shared_ptr<T<18>> m7;
  std::shared_ptr<T<13>> m8;
  std::shared_ptr<T<17>> m9;
  T<3>* m10;
  T<11>* m11;
  T<8> m12;
  uniq<T<1>> m13;
  std::shared_ptr<T<9>> m14;
  uniq<T<7>> m15;
  T<19> m16;
  uniq<T<0>> m17;
  T<12> m18;
  T<2> m19;
};
struct tgt_20_0_0 {
  T<12>& r0;
  T<8>& r1;
  T<2>& r2;
  T<6>& r3;
  T<0>& r4;
  T<6>& r5;
  T<13>& r6;
  T<19>& r7;
  T<11>& r8;
  T<11>& r9;
  T<6>& r10;
  T<17>& r11;
  T<2>& r12;
  T<5>* r13;
  T<18>* r14;
  T<7>& r15;
  T<0>& r16;
  T<5>& r17;
  T<17>& r18;
  T<1>& r19;
};
void run_20_0(vf::ctx& c) {
  store s{c}; src_20_0 src{s.uptr<6>(), s.sptr<10>(), s.ptr<14>(), s.sptr<4>(), s.ptr<5>(), s.direct<15>(), s.ptr<16>(), s.sptr<18>(), s.sptr<13>(), s.sptr<17>(), s.ptr<3>(), s.ptr<11>(), s.direct<8>(), s.uptr<1>(), s.sptr<9>(), s.uptr<7>(), s.direct<19>(), s.uptr<0>(), s.direct<12>(), s.direct<2>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2, src.m3.get(), src.m4, &src.m5, src.m6, src.m7.get(), src.m8.get(), src.m9.get(), src.m10, src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15.get(), &src.m16, src.m17.get(), &src.m18, &src.m19);
  {
  bool const none = src.m0.get() == nullptr || src.m11 == nullptr || src.m13.get() == nullptr || src.m15.get() == nullptr || src.m17.get() == nullptr || src.m4 == nullptr || src.m8.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_20_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "20_0");
  if (t) {
    CHECK(&t->r0 == &src.m18, "init_from/address", "20_0 member 0");
    CHECK(&t->r1 == &src.m12, "init_from/address", "20_0 member 1");
    CHECK(&t->r2 == &src.m19, "init_from/address", "20_0 member 2");
    CHECK(&t->r3 == src.m0.get(), "init_from/address", "20_0 member 3");
    CHECK(&t->r4 == src.m17.get(), "init_from/address", "20_0 member 4");
    CHECK(&t->r5 == src.m0.get(), "init_from/address", "20_0 member 5");
    CHECK(&t->r6 == src.m8.get(), "init_from/address", "20_0 member 6");
    CHECK(&t->r7 == &src.m16, "init_from/address", "20_0 member 7");
    CHECK(&t->r8 == src.m11, "init_from/address", "20_0 member 8");
    CHECK(&t->r9 == src.m11, "init_from/address", "20_0 member 9");
    CHECK(&t->r10 == src.m0.get(), "init_from/address", "20_0 member 10");
    CHECK(&t->r11 == src.m9.get(), "init_from/address", "20_0 member 11");
    CHECK(&t->r12 == &src.m19, "init_from/address", "20_0 member 12");
    CHECK(t->r13 == src.m4, "init_from/address", "20_0 member 13");
    CHECK(t->r14 == src.m7.get(), "init_from/address", "20_0 member 14");
    CHECK(&t->r15 == src.m15.get(), "init_from/address", "20_0 member 15");
    CHECK(&t->r16 == src.m17.get(), "init_from/address", "20_0 member 16");
    CHECK(&t->r17 == src.m4, "init_from/address", "20_0 member 17");
    CHECK(&t->r18 == src.m9.get(), "init_from/address", "20_0 member 18");
    CHECK(&t->r19 == src.m13.get(), "init_from/address", "20_0 member 19");
    c.count("init-members", 20);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2, src.m3.get(), src.m4, &src.m5, src.m6, src.m7.get(), src.m8.get(), src.m9.get(), src.m10, src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15.get(), &src.m16, src.m17.get(), &src.m18, &src.m19), "init_from/source-changed", "20_0");
  c.count("inits"); c.distinct(vf::hcomb(80, s.pattern));
}
struct src_21_0 {
  uniq<T<19>> m0;
  T<11> m1;
  std::shared_ptr<T<10>> m2;
  T<2> m3;
  uniq<T<8>> m4;
  uniq<T<9>> m5;
  T<13>* m6;
  T<15>* m7;
  uniq<T<4>> m8;
  uniq<T<20>> m9;
  T<14>* m10;
  T<1> m11;
  std::shared_ptr<T<0>> m12;
  uniq<T<17>> m13;
  std::shared_ptr<T<18>> m14;
  T<6> m15;
  uniq<T<12>> m16;
  std::shared_ptr<T<16>> m17;
  std::shared_ptr<T<5>> m18;
  T<3> m19;
  T<7> m20;
};
struct tgt_21_0_0 {
  T<12>& r0;
  T<12>& r1;
  T<15>& r2;
  T<0>* r3;
  T<5>& r4;
  T<19>& r5;
  T<20>* r6;
  T<8>* r7;
  T<17>* r8;
  T<20>& r9;
  T<15>& r10;
  T<20>* r11;
  T<13>& r12;
  T<2>& r13;
  T<12>& r14;
  T<9>& r15;
};
void run_21_0(vf::ctx& c) {
  store s{c}; src_21_0 src{s.uptr<19>(), s.direct<11>(), s.sptr<10>(), s.direct<2>(), s.uptr<8>(), s.uptr<9>(), s.ptr<13>(), s.ptr<15>(), s.uptr<4>(), s.uptr<20>(), s.ptr<14>(), s.direct<1>(), s.sptr<0>(), s.uptr<17>(), s.sptr<18>(), s.direct<6>(), s.uptr<12>(), s.sptr<16>(), s.sptr<5>(), s.direct<3>(), s.direct<7>()};
  auto const before = snapshot(src.m0.get(), &src.m1, src.m2.get(), &src.m3, src.m4.get(), src.m5.get(), src.m6, src.m7, src.m8.get(), src.m9.get(), src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, src.m16.get(), src.m17.get(), src.m18.get(), &src.m19, &src.m20);
  {
  bool const none = src.m0.get() == nullptr || src.m16.get() == nullptr || src.m18.get() == nullptr || src.m5.get() == nullptr || src.m6 == nullptr || src.m7 == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_21_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "21_0");
  if (t) {
    CHECK(&t->r0 == src.m16.get(), "init_from/address", "21_0 member 0");
    CHECK(&t->r1 == src.m16.get(), "init_from/address", "21_0 member 1");
    CHECK(&t->r2 == src.m7, "init_from/address", "21_0 member 2");
    CHECK(t->r3 == src.m12.get(), "init_from/address", "21_0 member 3");
    CHECK(&t->r4 == src.m18.get(), "init_from/address", "21_0 member 4");
    CHECK(&t->r5 == src.m0.get(), "init_from/address", "21_0 member 5");
    CHECK(t->r6 == src.m9.get(), "init_from/address", "21_0 member 6");
    CHECK(t->r7 == src.m4.get(), "init_from/address", "21_0 member 7");
    CHECK(t->r8 == src.m13.get(), "init_from/address", "21_0 member 8");
    CHECK(&t->r9 == src.m9.get(), "init_from/address", "21_0 member 9");
    CHECK(&t->r10 == src.m7, "init_from/address", "21_0 member 10");
    CHECK(t->r11 == src.m9.get(), "init_from/address", "21_0 member 11");
    CHECK(&t->r12 == src.m6, "init_from/address", "21_0 member 12");
    CHECK(&t->r13 == &src.m3, "init_from/address", "21_0 member 13");
    CHECK(&t->r14 == src.m16.get(), "init_from/address", "21_0 member 14");
    CHECK(&t->r15 == src.m5.get(), "init_from/address", "21_0 member 15");
    c.count("init-members", 16);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, src.m2.get(), &src.m3, src.m4.get(), src.m5.get(), src.m6, src.m7, src.m8.get(), src.m9.get(), src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), &src.m15, src.m16.get(), src.m17.get(), src.m18.get(), &src.m19, &src.m20), "init_from/source-changed", "21_0");
  c.count("inits"); c.distinct(vf::hcomb(84, s.pattern));
}
struct src_22_0 {
  std::shared_ptr<T<14>> m0;
  T<6>* m1;
  T<0> m2;
  uniq<T<9>> m3;
  T<15> m4;
  T<20>* m5;
  T<17> m6;
  uniq<T<3>> m7;
  T<16>* m8;
  uniq<T<21>> m9;
  T<13> m10;
  T<12> m11;
  T<2> m12;
  T<10>* m13;
  std::shared_ptr<T<18>> m14;
  T<1>* m15;
  T<5>* m16;
  T<19>* m17;
  uniq<T<11>> m18;
  T<7>* m19;
  uniq<T<4>> m20;
  T<8> m21;
};
struct tgt_22_0_0 {
  T<13>& r0;
  T<16>& r1;
  T<9>* r2;
  T<18>* r3;
  T<4>& r4;
  T<13>& r5;
  T<20>& r6;
  T<7>& r7;
  T<19>& r8;
  T<13>& r9;
  T<9>* r10;
  T<18>& r11;
  T<3>& r12;
  T<12>& r13;
  T<11>& r14;
  T<19>& r15;
  T<1>& r16;
  T<6>& r17;
  T<12>& r18;
  T<11>& r19;
  T<20>& r20;
  T<9>& r21;
};
void run_22_0(vf::ctx& c) {
  store s{c}; src_22_0 src{s.sptr<14>(), s.ptr<6>(), s.direct<0>(), s.uptr<9>(), s.direct<15>(), s.ptr<20>(), s.direct<17>(), s.uptr<3>(), s.ptr<16>(), s.uptr<21>(), s.direct<13>(), s.direct<12>(), s.direct<2>(), s.ptr<10>(), s.sptr<18>(), s.ptr<1>(), s.ptr<5>(), s.ptr<19>(), s.uptr<11>(), s.ptr<7>(), s.uptr<4>(), s.direct<8>()};
  auto const before = snapshot(src.m0.get(), src.m1, &src.m2, src.m3.get(), &src.m4, src.m5, &src.m6, src.m7.get(), src.m8, src.m9.get(), &src.m10, &src.m11, &src.m12, src.m13, src.m14.get(), src.m15, src.m16, src.m17, src.m18.get(), src.m19, src.m20.get(), &src.m21);
  {
  bool const none = src.m1 == nullptr || src.m14.get() == nullptr || src.m15 == nullptr || src.m17 == nullptr || src.m18.get() == nullptr || src.m19 == nullptr || src.m20.get() == nullptr || src.m3.get() == nullptr || src.m5 == nullptr || src.m7.get() == nullptr || src.m8 == nullptr;
  auto t = utl::init_from<tgt_22_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "22_0");
  if (t) {
    CHECK(&t->r0 == &src.m10, "init_from/address", "22_0 member 0");
    CHECK(&t->r1 == src.m8, "init_from/address", "22_0 member 1");
    CHECK(t->r2 == src.m3.get(), "init_from/address", "22_0 member 2");
    CHECK(t->r3 == src.m14.get(), "init_from/address", "22_0 member 3");
    CHECK(&t->r4 == src.m20.get(), "init_from/address", "22_0 member 4");
    CHECK(&t->r5 == &src.m10, "init_from/address", "22_0 member 5");
    CHECK(&t->r6 == src.m5, "init_from/address", "22_0 member 6");
    CHECK(&t->r7 == src.m19, "init_from/address", "22_0 member 7");
    CHECK(&t->r8 == src.m17, "init_from/address", "22_0 member 8");
    CHECK(&t->r9 == &src.m10, "init_from/address", "22_0 member 9");
    CHECK(t->r10 == src.m3.get(), "init_from/address", "22_0 member 10");
    CHECK(&t->r11 == src.m14.get(), "init_from/address", "22_0 member 11");
    CHECK(&t->r12 == src.m7.get(), "init_from/address", "22_0 member 12");
    CHECK(&t->r13 == &src.m11, "init_from/address", "22_0 member 13");
    CHECK(&t->r14 == src.m18.get(), "init_from/address", "22_0 member 14");
    CHECK(&t->r15 == src.m17, "init_from/address", "22_0 member 15");
    CHECK(&t->r16 == src.m15, "init_from/address", "22_0 member 16");
    CHECK(&t->r17 == src.m1, "init_from/address", "22_0 member 17");
    CHECK(&t->r18 == &src.m11, "init_from/address", "22_0 member 18");
    CHECK(&t->r19 == src.m18.get(), "init_from/address", "22_0 member 19");
    CHECK(&t->r20 == src.m5, "init_from/address", "22_0 member 20");
    CHECK(&t->r21 == src.m3.get(), "init_from/address", "22_0 member 21");
    c.count("init-members", 22);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1, &src.m2, src.m3.get(), &src.m4, src.m5, &src.m6, src.m7.get(), src.m8, src.m9.get(), &src.m10, &src.m11, &src.m12, src.m13, src.m14.get(), src.m15, src.m16, src.m17, src.m18.get(), src.m19, src.m20.get(), &src.m21), "init_from/source-changed", "22_0");
  c.count("inits"); c.distinct(vf::hcomb(88, s.pattern));
}
struct src_23_0 {
  T<18> m0;
  T<17> m1;
  T<1> m2;
  T<21>* m3;
  std::shared_ptr<T<9>> m4;
  T<12>* m5;
  T<16> m6;
  T<3> m7;
  T<4> m8;
  uniq<T<0>> m9;
  uniq<T<15>> m10;
  T<8> m11;
  T<6>* m12;
  uniq<T<13>> m13;
  uniq<T<5>> m14;
  std::shared_ptr<T<2>> m15;
  T<14> m16;
  uniq<T<20>> m17;
  T<22> m18;
  T<10>* m19;
  uniq<T<7>> m20;
  std::shared_ptr<T<19>> m21;
  uniq<T<11>> m22;
};
struct tgt_23_0_0 {
  T<21>* r0;
  T<19>& r1;
  T<16>& r2;
  T<4>& r3;
  T<21>* r4;
  T<17>& r5;
  T<5>* r6;
  T<0>& r7;
  T<5>* r8;
  T<3>& r9;
  T<17>& r10;
  T<21>& r11;
};
void run_23_0(vf::ctx& c) {
  store s{c}; src_23_0 src{s.direct<18>(), s.direct<17>(), s.direct<1>(), s.ptr<21>(), s.sptr<9>(), s.ptr<12>(), s.direct<16>(), s.direct<3>(), s.direct<4>(), s.uptr<0>(), s.uptr<15>(), s.direct<8>(), s.ptr<6>(), s.uptr<13>(), s.uptr<5>(), s.sptr<2>(), s.direct<14>(), s.uptr<20>(), s.direct<22>(), s.ptr<10>(), s.uptr<7>(), s.sptr<19>(), s.uptr<11>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4.get(), src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), &src.m11, src.m12, src.m13.get(), src.m14.get(), src.m15.get(), &src.m16, src.m17.get(), &src.m18, src.m19, src.m20.get(), src.m21.get(), src.m22.get());
  {
  bool const none = src.m21.get() == nullptr || src.m3 == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_23_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "23_0");
  if (t) {
    CHECK(t->r0 == src.m3, "init_from/address", "23_0 member 0");
    CHECK(&t->r1 == src.m21.get(), "init_from/address", "23_0 member 1");
    CHECK(&t->r2 == &src.m6, "init_from/address", "23_0 member 2");
    CHECK(&t->r3 == &src.m8, "init_from/address", "23_0 member 3");
    CHECK(t->r4 == src.m3, "init_from/address", "23_0 member 4");
    CHECK(&t->r5 == &src.m1, "init_from/address", "23_0 member 5");
    CHECK(t->r6 == src.m14.get(), "init_from/address", "23_0 member 6");
    CHECK(&t->r7 == src.m9.get(), "init_from/address", "23_0 member 7");
    CHECK(t->r8 == src.m14.get(), "init_from/address", "23_0 member 8");
    CHECK(&t->r9 == &src.m7, "init_from/address", "23_0 member 9");
    CHECK(&t->r10 == &src.m1, "init_from/address", "23_0 member 10");
    CHECK(&t->r11 == src.m3, "init_from/address", "23_0 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4.get(), src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), &src.m11, src.m12, src.m13.get(), src.m14.get(), src.m15.get(), &src.m16, src.m17.get(), &src.m18, src.m19, src.m20.get(), src.m21.get(), src.m22.get()), "init_from/source-changed", "23_0");
  c.count("inits"); c.distinct(vf::hcomb(92, s.pattern));
}
}  // namespace
SCENARIO(init_from_c, 480, 12000) {
  static void (*const fns[])(vf::ctx&) = {run_16_0, run_17_0, run_18_0, run_19_0, run_20_0, run_21_0, run_22_0, run_23_0};
  fns[c.idx % 8](c);
}
