// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_24_0 {
  T<21>* m0;
  T<15>* m1;
  T<1>* m2;
  std::shared_ptr<T<5>> m3;
  T<6>* m4;
  uniq<T<10>> m5;
  std::shared_ptr<T<13>> m6;
  T<2> m7;
  std::shared_ptr<T<20>> m8;
  T<0> m9;
  T<4> m10;
  T<22>* m11;
  uniq<T<23>> m12;
  T<7> m13;
  T<11> m14;
  uniq<T<8>> m15;
  uniq<T<14>> m16;
  T<19> m17;
  T<17>* m18;
  T<9>* m19;
  uniq<T<12>> m20;
  uniq<T<16>> m21;
  T<18> m22;
  T<3> m23;
};
struct tgt_24_0_0 {
  T<2>& r0;
  T<10>* r1;
  T<6>& r2;
  T<9>& r3;
  T<21>& r4;
  T<9>& r5;
  T<11>& r6;
  T<12>* r7;
  T<3>& r8;
  T<19>& r9;
  T<6>& r10;
  T<8>* r11;
  T<22>* r12;
  T<21>& r13;
  T<9>& r14;
  T<11>& r15;
  T<18>& r16;
  T<11>& r17;
  T<11>& r18;
  T<22>& r19;
  T<14>* r20;
  T<17>& r21;
  T<18>& r22;
  T<0>& r23;
};
void run_24_0(vf::ctx& c) {
  store s{c}; src_24_0 src{s.ptr<21>(), s.ptr<15>(), s.ptr<1>(), s.sptr<5>(), s.ptr<6>(), s.uptr<10>(), s.sptr<13>(), s.direct<2>(), s.sptr<20>(), s.direct<0>(), s.direct<4>(), s.ptr<22>(), s.uptr<23>(), s.direct<7>(), s.direct<11>(), s.uptr<8>(), s.uptr<14>(), s.direct<19>(), s.ptr<17>(), s.ptr<9>(), s.uptr<12>(), s.uptr<16>(), s.direct<18>(), s.direct<3>()};
  auto const before = snapshot(src.m0, src.m1, src.m2, src.m3.get(), src.m4, src.m5.get(), src.m6.get(), &src.m7, src.m8.get(), &src.m9, &src.m10, src.m11, src.m12.get(), &src.m13, &src.m14, src.m15.get(), src.m16.get(), &src.m17, src.m18, src.m19, src.m20.get(), src.m21.get(), &src.m22, &src.m23);
  {
  bool const none = src.m0 == nullptr || src.m11 == nullptr || src.m18 == nullptr || src.m19 == nullptr || src.m4 == nullptr;
  auto t = utl::init_from<tgt_24_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "24_0");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "24_0 member 0");
    CHECK(t->r1 == src.m5.get(), "init_from/address", "24_0 member 1");
    CHECK(&t->r2 == src.m4, "init_from/address", "24_0 member 2");
    CHECK(&t->r3 == src.m19, "init_from/address", "24_0 member 3");
    CHECK(&t->r4 == src.m0, "init_from/address", "24_0 member 4");
    CHECK(&t->r5 == src.m19, "init_from/address", "24_0 member 5");
    CHECK(&t->r6 == &src.m14, "init_from/address", "24_0 member 6");
    CHECK(t->r7 == src.m20.get(), "init_from/address", "24_0 member 7");
    CHECK(&t->r8 == &src.m23, "init_from/address", "24_0 member 8");
    CHECK(&t->r9 == &src.m17, "init_from/address", "24_0 member 9");
    CHECK(&t->r10 == src.m4, "init_from/address", "24_0 member 10");
    CHECK(t->r11 == src.m15.get(), "init_from/address", "24_0 member 11");
    CHECK(t->r12 == src.m11, "init_from/address", "24_0 member 12");
    CHECK(&t->r13 == src.m0, "init_from/address", "24_0 member 13");
    CHECK(&t->r14 == src.m19, "init_from/address", "24_0 member 14");
    CHECK(&t->r15 == &src.m14, "init_from/address", "24_0 member 15");
    CHECK(&t->r16 == &src.m22, "init_from/address", "24_0 member 16");
    CHECK(&t->r17 == &src.m14, "init_from/address", "24_0 member 17");
    CHECK(&t->r18 == &src.m14, "init_from/address", "24_0 member 18");
    CHECK(&t->r19 == src.m11, "init_from/address", "24_0 member 19");
    CHECK(t->r20 == src.m16.get(), "init_from/address", "24_0 member 20");
    CHECK(&t->r21 == src.m18, "init_from/address", "24_0 member 21");
    CHECK(&t->r22 == &src.m22, "init_from/address", "24_0 member 22");
    CHECK(&t->r23 == &src.m9, "init_from/address", "24_0 member 23");
    c.count("init-members", 24);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, src.m2, src.m3.get(), src.m4, src.m5.get(), src.m6.get(), &src.m7, src.m8.get(), &src.m9, &src.m10, src.m11, src.m12.get(), &src.m13, &src.m14, src.m15.get(), src.m16.get(), &src.m17, src.m18, src.m19, src.m20.get(), src.m21.get(), &src.m22, &src.m23), "init_from/source-changed", "24_0");
  c.count("inits"); c.distinct(vf::hcomb(96, s.pattern));
}
struct src_25_0 {
  T<22> m0;
  T<5> m1;
  uniq<T<1>> m2;
  T<15> m3;
  T<13>* m4;
  T<23> m5;
  std::shared_ptr<T<19>> m6;
  std::shared_ptr<T<12>> m7;
  T<14> m8;
  T<4> m9;
  T<10> m10;
  uniq<T<7>> m11;
  T<16> m12;
  T<21> m13;
  uniq<T<11>> m14;
  std::shared_ptr<T<24>> m15;
  T<6>* m16;
  std::shared_ptr<T<3>> m17;
  T<17>* m18;
  uniq<T<0>> m19;
  T<18>* m20;
  uniq<T<8>> m21;
  std::shared_ptr<T<20>> m22;
  T<2> m23;
  uniq<T<9>> m24;
};
struct tgt_25_0_0 {
  T<21>& r0;
  T<14>& r1;
  T<1>& r2;
  T<22>& r3;
  T<16>& r4;
  T<21>& r5;
  T<18>* r6;
};
void run_25_0(vf::ctx& c) {
  store s{c}; src_25_0 src{s.direct<22>(), s.direct<5>(), s.uptr<1>(), s.direct<15>(), s.ptr<13>(), s.direct<23>(), s.sptr<19>(), s.sptr<12>(), s.direct<14>(), s.direct<4>(), s.direct<10>(), s.uptr<7>(), s.direct<16>(), s.direct<21>(), s.uptr<11>(), s.sptr<24>(), s.ptr<6>(), s.sptr<3>(), s.ptr<17>(), s.uptr<0>(), s.ptr<18>(), s.uptr<8>(), s.sptr<20>(), s.direct<2>(), s.uptr<9>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), &src.m3, src.m4, &src.m5, src.m6.get(), src.m7.get(), &src.m8, &src.m9, &src.m10, src.m11.get(), &src.m12, &src.m13, src.m14.get(), src.m15.get(), src.m16, src.m17.get(), src.m18, src.m19.get(), src.m20, src.m21.get(), src.m22.get(), &src.m23, src.m24.get());
  {
  bool const none = src.m2.get() == nullptr;
  auto t = utl::init_from<tgt_25_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "25_0");
  if (t) {
    CHECK(&t->r0 == &src.m13, "init_from/address", "25_0 member 0");
    CHECK(&t->r1 == &src.m8, "init_from/address", "25_0 member 1");
    CHECK(&t->r2 == src.m2.get(), "init_from/address", "25_0 member 2");
    CHECK(&t->r3 == &src.m0, "init_from/address", "25_0 member 3");
    CHECK(&t->r4 == &src.m12, "init_from/address", "25_0 member 4");
    CHECK(&t->r5 == &src.m13, "init_from/address", "25_0 member 5");
    CHECK(t->r6 == src.m20, "init_from/address", "25_0 member 6");
    c.count("init-members", 7);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), &src.m3, src.m4, &src.m5, src.m6.get(), src.m7.get(), &src.m8, &src.m9, &src.m10, src.m11.get(), &src.m12, &src.m13, src.m14.get(), src.m15.get(), src.m16, src.m17.get(), src.m18, src.m19.get(), src.m20, src.m21.get(), src.m22.get(), &src.m23, src.m24.get()), "init_from/source-changed", "25_0");
  c.count("inits"); c.distinct(vf::hcomb(100, s.pattern));
}
struct src_26_0 {
  T<15> m0;
  T<17> m1;
  T<12>* m2;
  uniq<T<7>> m3;
  T<6> m4;
  uniq<T<25>> m5;
  uniq<T<0>> m6;
  std::shared_ptr<T<21>> m7;
  T<4>* m8;
  T<18>* m9;
  T<16> m10;
  T<10>* m11;
  std::shared_ptr<T<2>> m12;
  std::shared_ptr<T<23>> m13;
  T<20> m14;
  uniq<T<14>> m15;
  uniq<T<5>> m16;
  uniq<T<8>> m17;
  T<24>* m18;
  T<19>* m19;
  T<9> m20;
  T<1>* m21;
  T<13> m22;
  T<22>* m23;
  std::shared_ptr<T<11>> m24;
  T<3> m25;
};
struct tgt_26_0_0 {
  T<9>& r0;
  T<0>& r1;
  T<23>& r2;
  T<16>& r3;
  T<20>& r4;
  T<17>& r5;
  T<15>& r6;
  T<24>& r7;
  T<16>& r8;
  T<17>& r9;
  T<8>& r10;
  T<18>* r11;
  T<20>& r12;
  T<12>& r13;
  T<5>* r14;
  T<2>& r15;
  T<0>* r16;
  T<22>* r17;
  T<22>& r18;
  T<22>& r19;
  T<5>* r20;
  T<23>* r21;
};
void run_26_0(vf::ctx& c) {
  store s{c}; src_26_0 src{s.direct<15>(), s.direct<17>(), s.ptr<12>(), s.uptr<7>(), s.direct<6>(), s.uptr<25>(), s.uptr<0>(), s.sptr<21>(), s.ptr<4>(), s.ptr<18>(), s.direct<16>(), s.ptr<10>(), s.sptr<2>(), s.sptr<23>(), s.direct<20>(), s.uptr<14>(), s.uptr<5>(), s.uptr<8>(), s.ptr<24>(), s.ptr<19>(), s.direct<9>(), s.ptr<1>(), s.direct<13>(), s.ptr<22>(), s.sptr<11>(), s.direct<3>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2, src.m3.get(), &src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8, src.m9, &src.m10, src.m11, src.m12.get(), src.m13.get(), &src.m14, src.m15.get(), src.m16.get(), src.m17.get(), src.m18, src.m19, &src.m20, src.m21, &src.m22, src.m23, src.m24.get(), &src.m25);
  {
  bool const none = src.m12.get() == nullptr || src.m13.get() == nullptr || src.m17.get() == nullptr || src.m18 == nullptr || src.m2 == nullptr || src.m23 == nullptr || src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_26_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "26_0");
  if (t) {
    CHECK(&t->r0 == &src.m20, "init_from/address", "26_0 member 0");
    CHECK(&t->r1 == src.m6.get(), "init_from/address", "26_0 member 1");
    CHECK(&t->r2 == src.m13.get(), "init_from/address", "26_0 member 2");
    CHECK(&t->r3 == &src.m10, "init_from/address", "26_0 member 3");
    CHECK(&t->r4 == &src.m14, "init_from/address", "26_0 member 4");
    CHECK(&t->r5 == &src.m1, "init_from/address", "26_0 member 5");
    CHECK(&t->r6 == &src.m0, "init_from/address", "26_0 member 6");
    CHECK(&t->r7 == src.m18, "init_from/address", "26_0 member 7");
    CHECK(&t->r8 == &src.m10, "init_from/address", "26_0 member 8");
    CHECK(&t->r9 == &src.m1, "init_from/address", "26_0 member 9");
    CHECK(&t->r10 == src.m17.get(), "init_from/address", "26_0 member 10");
    CHECK(t->r11 == src.m9, "init_from/address", "26_0 member 11");
    CHECK(&t->r12 == &src.m14, "init_from/address", "26_0 member 12");
    CHECK(&t->r13 == src.m2, "init_from/address", "26_0 member 13");
    CHECK(t->r14 == src.m16.get(), "init_from/address", "26_0 member 14");
    CHECK(&t->r15 == src.m12.get(), "init_from/address", "26_0 member 15");
    CHECK(t->r16 == src.m6.get(), "init_from/address", "26_0 member 16");
    CHECK(t->r17 == src.m23, "init_from/address", "26_0 member 17");
    CHECK(&t->r18 == src.m23, "init_from/address", "26_0 member 18");
    CHECK(&t->r19 == src.m23, "init_from/address", "26_0 member 19");
    CHECK(t->r20 == src.m16.get(), "init_from/address", "26_0 member 20");
    CHECK(t->r21 == src.m13.get(), "init_from/address", "26_0 member 21");
    c.count("init-members", 22);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2, src.m3.get(), &src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8, src.m9, &src.m10, src.m11, src.m12.get(), src.m13.get(), &src.m14, src.m15.get(), src.m16.get(), src.m17.get(), src.m18, src.m19, &src.m20, src.m21, &src.m22, src.m23, src.m24.get(), &src.m25), "init_from/source-changed", "26_0");
  c.count("inits"); c.distinct(vf::hcomb(104, s.pattern));
}
struct src_27_0 {
  T<13> m0;
  T<5> m1;
  uniq<T<0>> m2;
  T<1>* m3;
  T<2>* m4;
  std::shared_ptr<T<23>> m5;
  T<4> m6;
  T<7> m7;
  std::shared_ptr<T<8>> m8;
  T<20> m9;
  T<19> m10;
  T<10> m11;
  uniq<T<25>> m12;
  T<14> m13;
  std::shared_ptr<T<9>> m14;
  T<26> m15;
  T<6>* m16;
  std::shared_ptr<T<22>> m17;
  T<11>* m18;
  T<3> m19;
  std::shared_ptr<T<21>> m20;
  T<16> m21;
  T<18>* m22;
  std::shared_ptr<T<17>> m23;
  T<24> m24;
  uniq<T<12>> m25;
  uniq<T<15>> m26;
};
struct tgt_27_0_0 {
  T<14>& r0;
  T<23>& r1;
  T<21>& r2;
  T<18>& r3;
  T<19>& r4;
  T<12>& r5;
  T<12>& r6;
  T<24>& r7;
  T<26>& r8;
  T<5>& r9;
  T<17>* r10;
  T<3>& r11;
  T<23>& r12;
  T<26>& r13;
  T<9>& r14;
  T<19>& r15;
};
void run_27_0(vf::ctx& c) {
  store s{c}; src_27_0 src{s.direct<13>(), s.direct<5>(), s.uptr<0>(), s.ptr<1>(), s.ptr<2>(), s.sptr<23>(), s.direct<4>(), s.direct<7>(), s.sptr<8>(), s.direct<20>(), s.direct<19>(), s.direct<10>(), s.uptr<25>(), s.direct<14>(), s.sptr<9>(), s.direct<26>(), s.ptr<6>(), s.sptr<22>(), s.ptr<11>(), s.direct<3>(), s.sptr<21>(), s.direct<16>(), s.ptr<18>(), s.sptr<17>(), s.direct<24>(), s.uptr<12>(), s.uptr<15>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), src.m3, src.m4, src.m5.get(), &src.m6, &src.m7, src.m8.get(), &src.m9, &src.m10, &src.m11, src.m12.get(), &src.m13, src.m14.get(), &src.m15, src.m16, src.m17.get(), src.m18, &src.m19, src.m20.get(), &src.m21, src.m22, src.m23.get(), &src.m24, src.m25.get(), src.m26.get());
  {
  bool const none = src.m14.get() == nullptr || src.m20.get() == nullptr || src.m22 == nullptr || src.m25.get() == nullptr || src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_27_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "27_0");
  if (t) {
    CHECK(&t->r0 == &src.m13, "init_from/address", "27_0 member 0");
    CHECK(&t->r1 == src.m5.get(), "init_from/address", "27_0 member 1");
    CHECK(&t->r2 == src.m20.get(), "init_from/address", "27_0 member 2");
    CHECK(&t->r3 == src.m22, "init_from/address", "27_0 member 3");
    CHECK(&t->r4 == &src.m10, "init_from/address", "27_0 member 4");
    CHECK(&t->r5 == src.m25.get(), "init_from/address", "27_0 member 5");
    CHECK(&t->r6 == src.m25.get(), "init_from/address", "27_0 member 6");
    CHECK(&t->r7 == &src.m24, "init_from/address", "27_0 member 7");
    CHECK(&t->r8 == &src.m15, "init_from/address", "27_0 member 8");
    CHECK(&t->r9 == &src.m1, "init_from/address", "27_0 member 9");
    CHECK(t->r10 == src.m23.get(), "init_from/address", "27_0 member 10");
    CHECK(&t->r11 == &src.m19, "init_from/address", "27_0 member 11");
    CHECK(&t->r12 == src.m5.get(), "init_from/address", "27_0 member 12");
    CHECK(&t->r13 == &src.m15, "init_from/address", "27_0 member 13");
    CHECK(&t->r14 == src.m14.get(), "init_from/address", "27_0 member 14");
    CHECK(&t->r15 == &src.m10, "init_from/address", "27_0 member 15");
    c.count("init-members", 16);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), src.m3, src.m4, src.m5.get(), &src.m6, &src.m7, src.m8.get(), &src.m9, &src.m10, &src.m11, src.m12.get(), &src.m13, src.m14.get(), &src.m15, src.m16, src.m17.get(), src.m18, &src.m19, src.m20.get(), &src.m21, src.m22, src.m23.get(), &src.m24, src.m25.get(), src.m26.get()), "init_from/source-changed", "27_0");
  c.count("inits"); c.distinct(vf::hcomb(108, s.pattern));
}
struct src_28_0 {
  T<0>* m0;
  T<1>* m1;
  T<4> m2;
  T<18>* m3;
  T<6> m4;
  std::shared_ptr<T<19>> m5;
  T<9> m6;
  T<14> m7;
  uniq<T<24>> m8;
  T<23> m9;
  uniq<T<17>> m10;
  T<16> m11;
  T<27> m12;
  T<22> m13;
  T<8> m14;
  T<12> m15;
  uniq<T<7>> m16;
  std::shared_ptr<T<26>> m17;
  T<15>* m18;
  uniq<T<21>> m19;
  T<3> m20;
  T<25> m21;
  uniq<T<11>> m22;
  T<2> m23;
  uniq<T<10>> m24;
  T<20>* m25;
  T<5> m26;
  T<13> m27;
};
struct tgt_28_0_0 {
  T<4>& r0;
  T<22>& r1;
  T<9>& r2;
  T<9>& r3;
  T<26>& r4;
  T<24>& r5;
  T<17>* r6;
  T<6>& r7;
  T<9>& r8;
  T<15>& r9;
  T<13>& r10;
  T<7>& r11;
  T<12>& r12;
  T<16>& r13;
  T<10>& r14;
  T<9>& r15;
  T<11>* r16;
  T<7>& r17;
  T<8>& r18;
  T<24>* r19;
  T<6>& r20;
  T<14>& r21;
  T<17>& r22;
  T<27>& r23;
  T<17>& r24;
  T<13>& r25;
  T<25>& r26;
  T<18>* r27;
};
void run_28_0(vf::ctx& c) {
  store s{c}; src_28_0 src{s.ptr<0>(), s.ptr<1>(), s.direct<4>(), s.ptr<18>(), s.direct<6>(), s.sptr<19>(), s.direct<9>(), s.direct<14>(), s.uptr<24>(), s.direct<23>(), s.uptr<17>(), s.direct<16>(), s.direct<27>(), s.direct<22>(), s.direct<8>(), s.direct<12>(), s.uptr<7>(), s.sptr<26>(), s.ptr<15>(), s.uptr<21>(), s.direct<3>(), s.direct<25>(), s.uptr<11>(), s.direct<2>(), s.uptr<10>(), s.ptr<20>(), s.direct<5>(), s.direct<13>()};
  auto const before = snapshot(src.m0, src.m1, &src.m2, src.m3, &src.m4, src.m5.get(), &src.m6, &src.m7, src.m8.get(), &src.m9, src.m10.get(), &src.m11, &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), src.m18, src.m19.get(), &src.m20, &src.m21, src.m22.get(), &src.m23, src.m24.get(), src.m25, &src.m26, &src.m27);
  {
  bool const none = src.m10.get() == nullptr || src.m16.get() == nullptr || src.m17.get() == nullptr || src.m18 == nullptr || src.m24.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_28_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "28_0");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "28_0 member 0");
    CHECK(&t->r1 == &src.m13, "init_from/address", "28_0 member 1");
    CHECK(&t->r2 == &src.m6, "init_from/address", "28_0 member 2");
    CHECK(&t->r3 == &src.m6, "init_from/address", "28_0 member 3");
    CHECK(&t->r4 == src.m17.get(), "init_from/address", "28_0 member 4");
    CHECK(&t->r5 == src.m8.get(), "init_from/address", "28_0 member 5");
    CHECK(t->r6 == src.m10.get(), "init_from/address", "28_0 member 6");
    CHECK(&t->r7 == &src.m4, "init_from/address", "28_0 member 7");
    CHECK(&t->r8 == &src.m6, "init_from/address", "28_0 member 8");
    CHECK(&t->r9 == src.m18, "init_from/address", "28_0 member 9");
    CHECK(&t->r10 == &src.m27, "init_from/address", "28_0 member 10");
    CHECK(&t->r11 == src.m16.get(), "init_from/address", "28_0 member 11");
    CHECK(&t->r12 == &src.m15, "init_from/address", "28_0 member 12");
    CHECK(&t->r13 == &src.m11, "init_from/address", "28_0 member 13");
    CHECK(&t->r14 == src.m24.get(), "init_from/address", "28_0 member 14");
    CHECK(&t->r15 == &src.m6, "init_from/address", "28_0 member 15");
    CHECK(t->r16 == src.m22.get(), "init_from/address", "28_0 member 16");
    CHECK(&t->r17 == src.m16.get(), "init_from/address", "28_0 member 17");
    CHECK(&t->r18 == &src.m14, "init_from/address", "28_0 member 18");
    CHECK(t->r19 == src.m8.get(), "init_from/address", "28_0 member 19");
    CHECK(&t->r20 == &src.m4, "init_from/address", "28_0 member 20");
    CHECK(&t->r21 == &src.m7, "init_from/address", "28_0 member 21");
    CHECK(&t->r22 == src.m10.get(), "init_from/address", "28_0 member 22");
    CHECK(&t->r23 == &src.m12, "init_from/address", "28_0 member 23");
    CHECK(&t->r24 == src.m10.get(), "init_from/address", "28_0 member 24");
    CHECK(&t->r25 == &src.m27, "init_from/address", "28_0 member 25");
    CHECK(&t->r26 == &src.m21, "init_from/address", "28_0 member 26");
    CHECK(t->r27 == src.m3, "init_from/address", "28_0 member 27");
    c.count("init-members", 28);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, &src.m2, src.m3, &src.m4, src.m5.get(), &src.m6, &src.m7, src.m8.get(), &src.m9, src.m10.get(), &src.m11, &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), src.m18, src.m19.get(), &src.m20, &src.m21, src.m22.get(), &src.m23, src.m24.get(), src.m25, &src.m26, &src.m27), "init_from/source-changed", "28_0");
  c.count("inits"); c.distinct(vf::hcomb(112, s.pattern));
}
struct src_29_0 {
  T<26>* m0;
  uniq<T<19>> m1;
  T<14>* m2;
  uniq<T<28>> m3;
  T<3> m4;
  T<1> m5;
  std::shared_ptr<T<27>> m6;
  T<5> m7;
  uniq<T<25>> m8;
  T<11> m9;
  std::shared_ptr<T<23>> m10;
  T<22> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<17>> m13;
  uniq<T<21>> m14;
  T<13>* m15;
  std::shared_ptr<T<10>> m16;
  uniq<T<0>> m17;
  uniq<T<15>> m18;
  T<8> m19;
  T<20>* m20;
  T<7>* m21;
  std::shared_ptr<T<2>> m22;
  T<24> m23;
  T<12> m24;
  uniq<T<4>> m25;
  uniq<T<16>> m26;
  T<9>* m27;
  T<18> m28;
};
struct tgt_29_0_0 {
  T<4>& r0;
  T<18>& r1;
  T<7>& r2;
  T<17>& r3;
  T<7>& r4;
  T<9>* r5;
  T<20>& r6;
  T<6>& r7;
  T<6>& r8;
  T<7>& r9;
  T<21>& r10;
  T<13>* r11;
  T<0>& r12;
  T<20>* r13;
  T<22>& r14;
  T<24>& r15;
  T<16>& r16;
  T<4>* r17;
  T<25>& r18;
  T<6>* r19;
  T<27>* r20;
  T<8>& r21;
  T<9>& r22;
  T<15>* r23;
  T<7>* r24;
  T<20>& r25;
  T<6>& r26;
  T<25>& r27;
  T<25>* r28;
};
void run_29_0(vf::ctx& c) {
  store s{c}; src_29_0 src{s.ptr<26>(), s.uptr<19>(), s.ptr<14>(), s.uptr<28>(), s.direct<3>(), s.direct<1>(), s.sptr<27>(), s.direct<5>(), s.uptr<25>(), s.direct<11>(), s.sptr<23>(), s.direct<22>(), s.sptr<6>(), s.sptr<17>(), s.uptr<21>(), s.ptr<13>(), s.sptr<10>(), s.uptr<0>(), s.uptr<15>(), s.direct<8>(), s.ptr<20>(), s.ptr<7>(), s.sptr<2>(), s.direct<24>(), s.direct<12>(), s.uptr<4>(), s.uptr<16>(), s.ptr<9>(), s.direct<18>()};
  auto const before = snapshot(src.m0, src.m1.get(), src.m2, src.m3.get(), &src.m4, &src.m5, src.m6.get(), &src.m7, src.m8.get(), &src.m9, src.m10.get(), &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15, src.m16.get(), src.m17.get(), src.m18.get(), &src.m19, src.m20, src.m21, src.m22.get(), &src.m23, &src.m24, src.m25.get(), src.m26.get(), src.m27, &src.m28);
  {
  bool const none = src.m12.get() == nullptr || src.m13.get() == nullptr || src.m14.get() == nullptr || src.m17.get() == nullptr || src.m20 == nullptr || src.m21 == nullptr || src.m25.get() == nullptr || src.m26.get() == nullptr || src.m27 == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_29_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "29_0");
  if (t) {
    CHECK(&t->r0 == src.m25.get(), "init_from/address", "29_0 member 0");
    CHECK(&t->r1 == &src.m28, "init_from/address", "29_0 member 1");
    CHECK(&t->r2 == src.m21, "init_from/address", "29_0 member 2");
    CHECK(&t->r3 == src.m13.get(), "init_from/address", "29_0 member 3");
    CHECK(&t->r4 == src.m21, "init_from/address", "29_0 member 4");
    CHECK(t->r5 == src.m27, "init_from/address", "29_0 member 5");
    CHECK(&t->r6 == src.m20, "init_from/address", "29_0 member 6");
    CHECK(&t->r7 == src.m12.get(), "init_from/address", "29_0 member 7");
    CHECK(&t->r8 == src.m12.get(), "init_from/address", "29_0 member 8");
    CHECK(&t->r9 == src.m21, "init_from/address", "29_0 member 9");
    CHECK(&t->r10 == src.m14.get(), "init_from/address", "29_0 member 10");
    CHECK(t->r11 == src.m15, "init_from/address", "29_0 member 11");
    CHECK(&t->r12 == src.m17.get(), "init_from/address", "29_0 member 12");
    CHECK(t->r13 == src.m20, "init_from/address", "29_0 member 13");
    CHECK(&t->r14 == &src.m11, "init_from/address", "29_0 member 14");
    CHECK(&t->r15 == &src.m23, "init_from/address", "29_0 member 15");
    CHECK(&t->r16 == src.m26.get(), "init_from/address", "29_0 member 16");
    CHECK(t->r17 == src.m25.get(), "init_from/address", "29_0 member 17");
    CHECK(&t->r18 == src.m8.get(), "init_from/address", "29_0 member 18");
    CHECK(t->r19 == src.m12.get(), "init_from/address", "29_0 member 19");
    CHECK(t->r20 == src.m6.get(), "init_from/address", "29_0 member 20");
    CHECK(&t->r21 == &src.m19, "init_from/address", "29_0 member 21");
    CHECK(&t->r22 == src.m27, "init_from/address", "29_0 member 22");
    CHECK(t->r23 == src.m18.get(), "init_from/address", "29_0 member 23");
    CHECK(t->r24 == src.m21, "init_from/address", "29_0 member 24");
    CHECK(&t->r25 == src.m20, "init_from/address", "29_0 member 25");
    CHECK(&t->r26 == src.m12.get(), "init_from/address", "29_0 member 26");
    CHECK(&t->r27 == src.m8.get(), "init_from/address", "29_0 member 27");
    CHECK(t->r28 == src.m8.get(), "init_from/address", "29_0 member 28");
    c.count("init-members", 29);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1.get(), src.m2, src.m3.get(), &src.m4, &src.m5, src.m6.get(), &src.m7, src.m8.get(), &src.m9, src.m10.get(), &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15, src.m16.get(), src.m17.get(), src.m18.get(), &src.m19, src.m20, src.m21, src.m22.get(), &src.m23, &src.m24, src.m25.get(), src.m26.get(), src.m27, &src.m28), "init_from/source-changed", "29_0");
  c.count("inits"); c.distinct(vf::hcomb(116, s.pattern));
}
struct src_30_0 {
  std::shared_ptr<T<20>> m0;
  T<7> m1;
  uniq<T<22>> m2;
  T<18>* m3;
  std::shared_ptr<T<19>> m4;
  uniq<T<4>> m5;
  T<11> m6;
  T<9>* m7;
  T<28> m8;
  T<8> m9;
  uniq<T<1>> m10;
  std::shared_ptr<T<3>> m11;
  T<6>* m12;
  T<2>* m13;
  T<15>* m14;
  uniq<T<5>> m15;
  T<27>* m16;
  T<16>* m17;
  T<25>* m18;
  uniq<T<17>> m19;
  T<13>* m20;
  std::shared_ptr<T<29>> m21;
  std::shared_ptr<T<21>> m22;
  T<10> m23;
  T<0>* m24;
  uniq<T<23>> m25;
  T<14> m26;
  T<24> m27;
  uniq<T<26>> m28;
  T<12> m29;
};
struct tgt_30_0_0 {
  T<13>* r0;
  T<20>& r1;
  T<13>* r2;
  T<7>& r3;
  T<4>& r4;
  T<10>& r5;
  T<6>* r6;
  T<4>* r7;
  T<6>& r8;
  T<17>* r9;
  T<26>& r10;
  T<18>& r11;
  T<29>& r12;
  T<16>& r13;
  T<10>& r14;
  T<1>& r15;
  T<17>& r16;
  T<14>& r17;
  T<3>& r18;
  T<13>& r19;
  T<4>* r20;
  T<7>& r21;
  T<16>& r22;
  T<12>& r23;
  T<8>& r24;
  T<1>& r25;
  T<23>* r26;
  T<26>& r27;
  T<19>& r28;
  T<12>& r29;
};
void run_30_0(vf::ctx& c) {
  store s{c}; src_30_0 src{s.sptr<20>(), s.direct<7>(), s.uptr<22>(), s.ptr<18>(), s.sptr<19>(), s.uptr<4>(), s.direct<11>(), s.ptr<9>(), s.direct<28>(), s.direct<8>(), s.uptr<1>(), s.sptr<3>(), s.ptr<6>(), s.ptr<2>(), s.ptr<15>(), s.uptr<5>(), s.ptr<27>(), s.ptr<16>(), s.ptr<25>(), s.uptr<17>(), s.ptr<13>(), s.sptr<29>(), s.sptr<21>(), s.direct<10>(), s.ptr<0>(), s.uptr<23>(), s.direct<14>(), s.direct<24>(), s.uptr<26>(), s.direct<12>()};
  auto const before = snapshot(src.m0.get(), &src.m1, src.m2.get(), src.m3, src.m4.get(), src.m5.get(), &src.m6, src.m7, &src.m8, &src.m9, src.m10.get(), src.m11.get(), src.m12, src.m13, src.m14, src.m15.get(), src.m16, src.m17, src.m18, src.m19.get(), src.m20, src.m21.get(), src.m22.get(), &src.m23, src.m24, src.m25.get(), &src.m26, &src.m27, src.m28.get(), &src.m29);
  {
  bool const none = src.m0.get() == nullptr || src.m10.get() == nullptr || src.m11.get() == nullptr || src.m12 == nullptr || src.m17 == nullptr || src.m19.get() == nullptr || src.m20 == nullptr || src.m21.get() == nullptr || src.m28.get() == nullptr || src.m3 == nullptr || src.m4.get() == nullptr || src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_30_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "30_0");
  if (t) {
    CHECK(t->r0 == src.m20, "init_from/address", "30_0 member 0");
    CHECK(&t->r1 == src.m0.get(), "init_from/address", "30_0 member 1");
    CHECK(t->r2 == src.m20, "init_from/address", "30_0 member 2");
    CHECK(&t->r3 == &src.m1, "init_from/address", "30_0 member 3");
    CHECK(&t->r4 == src.m5.get(), "init_from/address", "30_0 member 4");
    CHECK(&t->r5 == &src.m23, "init_from/address", "30_0 member 5");
    CHECK(t->r6 == src.m12, "init_from/address", "30_0 member 6");
    CHECK(t->r7 == src.m5.get(), "init_from/address", "30_0 member 7");
    CHECK(&t->r8 == src.m12, "init_from/address", "30_0 member 8");
    CHECK(t->r9 == src.m19.get(), "init_from/address", "30_0 member 9");
    CHECK(&t->r10 == src.m28.get(), "init_from/address", "30_0 member 10");
    CHECK(&t->r11 == src.m3, "init_from/address", "30_0 member 11");
    CHECK(&t->r12 == src.m21.get(), "init_from/address", "30_0 member 12");
    CHECK(&t->r13 == src.m17, "init_from/address", "30_0 member 13");
    CHECK(&t->r14 == &src.m23, "init_from/address", "30_0 member 14");
    CHECK(&t->r15 == src.m10.get(), "init_from/address", "30_0 member 15");
    CHECK(&t->r16 == src.m19.get(), "init_from/address", "30_0 member 16");
    CHECK(&t->r17 == &src.m26, "init_from/address", "30_0 member 17");
    CHECK(&t->r18 == src.m11.get(), "init_from/address", "30_0 member 18");
    CHECK(&t->r19 == src.m20, "init_from/address", "30_0 member 19");
    CHECK(t->r20 == src.m5.get(), "init_from/address", "30_0 member 20");
    CHECK(&t->r21 == &src.m1, "init_from/address", "30_0 member 21");
    CHECK(&t->r22 == src.m17, "init_from/address", "30_0 member 22");
    CHECK(&t->r23 == &src.m29, "init_from/address", "30_0 member 23");
    CHECK(&t->r24 == &src.m9, "init_from/address", "30_0 member 24");
    CHECK(&t->r25 == src.m10.get(), "init_from/address", "30_0 member 25");
    CHECK(t->r26 == src.m25.get(), "init_from/address", "30_0 member 26");
    CHECK(&t->r27 == src.m28.get(), "init_from/address", "30_0 member 27");
    CHECK(&t->r28 == src.m4.get(), "init_from/address", "30_0 member 28");
    CHECK(&t->r29 == &src.m29, "init_from/address", "30_0 member 29");
    c.count("init-members", 30);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, src.m2.get(), src.m3, src.m4.get(), src.m5.get(), &src.m6, src.m7, &src.m8, &src.m9, src.m10.get(), src.m11.get(), src.m12, src.m13, src.m14, src.m15.get(), src.m16, src.m17, src.m18, src.m19.get(), src.m20, src.m21.get(), src.m22.get(), &src.m23, src.m24, src.m25.get(), &src.m26, &src.m27, src.m28.get(), &src.m29), "init_from/source-changed", "30_0");
  c.count("inits"); c.distinct(vf::hcomb(120, s.pattern));
}
struct src_31_0 {
  std::shared_ptr<T<18>> m0;
  uniq<T<16>> m1;
  T<10> m2;
  T<3> m3;
  T<4>* m4;
  std::shared_ptr<T<21>> m5;
  T<8> m6;
  uniq<T<23>> m7;
  std::shared_ptr<T<20>> m8;
  std::shared_ptr<T<22>> m9;
  uniq<T<28>> m10;
  uniq<T<29>> m11;
  T<24> m12;
  T<1>* m13;
  T<14> m14;
  T<25> m15;
  uniq<T<7>> m16;
  T<19> m17;
  T<13> m18;
  T<27> m19;
  uniq<T<2>> m20;
  T<5> m21;
  std::shared_ptr<T<17>> m22;
  uniq<T<6>> m23;
  T<9> m24;
  uniq<T<15>> m25;
  T<0> m26;
  T<11> m27;
  T<26> m28;
  uniq<T<12>> m29;
  std::shared_ptr<T<30>> m30;
};
struct tgt_31_0_0 {
  T<12>* r0;
  T<19>& r1;
  T<4>& r2;
  T<28>* r3;
  T<10>& r4;
  T<15>& r5;
  T<26>& r6;
  T<9>& r7;
  T<25>& r8;
  T<7>* r9;
  T<23>& r10;
  T<16>* r11;
  T<22>& r12;
  T<17>& r13;
  T<2>& r14;
  T<22>* r15;
  T<9>& r16;
  T<20>& r17;
  T<17>& r18;
  T<16>* r19;
  T<5>& r20;
  T<18>* r21;
  T<18>* r22;
  T<25>& r23;
  T<11>& r24;
  T<16>& r25;
  T<3>& r26;
  T<14>& r27;
  T<3>& r28;
};
void run_31_0(vf::ctx& c) {
  store s{c}; src_31_0 src{s.sptr<18>(), s.uptr<16>(), s.direct<10>(), s.direct<3>(), s.ptr<4>(), s.sptr<21>(), s.direct<8>(), s.uptr<23>(), s.sptr<20>(), s.sptr<22>(), s.uptr<28>(), s.uptr<29>(), s.direct<24>(), s.ptr<1>(), s.direct<14>(), s.direct<25>(), s.uptr<7>(), s.direct<19>(), s.direct<13>(), s.direct<27>(), s.uptr<2>(), s.direct<5>(), s.sptr<17>(), s.uptr<6>(), s.direct<9>(), s.uptr<15>(), s.direct<0>(), s.direct<11>(), s.direct<26>(), s.uptr<12>(), s.sptr<30>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, src.m4, src.m5.get(), &src.m6, src.m7.get(), src.m8.get(), src.m9.get(), src.m10.get(), src.m11.get(), &src.m12, src.m13, &src.m14, &src.m15, src.m16.get(), &src.m17, &src.m18, &src.m19, src.m20.get(), &src.m21, src.m22.get(), src.m23.get(), &src.m24, src.m25.get(), &src.m26, &src.m27, &src.m28, src.m29.get(), src.m30.get());
  {
  bool const none = src.m1.get() == nullptr || src.m20.get() == nullptr || src.m22.get() == nullptr || src.m25.get() == nullptr || src.m4 == nullptr || src.m7.get() == nullptr || src.m8.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_31_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "31_0");
  if (t) {
    CHECK(t->r0 == src.m29.get(), "init_from/address", "31_0 member 0");
    CHECK(&t->r1 == &src.m17, "init_from/address", "31_0 member 1");
    CHECK(&t->r2 == src.m4, "init_from/address", "31_0 member 2");
    CHECK(t->r3 == src.m10.get(), "init_from/address", "31_0 member 3");
    CHECK(&t->r4 == &src.m2, "init_from/address", "31_0 member 4");
    CHECK(&t->r5 == src.m25.get(), "init_from/address", "31_0 member 5");
    CHECK(&t->r6 == &src.m28, "init_from/address", "31_0 member 6");
    CHECK(&t->r7 == &src.m24, "init_from/address", "31_0 member 7");
    CHECK(&t->r8 == &src.m15, "init_from/address", "31_0 member 8");
    CHECK(t->r9 == src.m16.get(), "init_from/address", "31_0 member 9");
    CHECK(&t->r10 == src.m7.get(), "init_from/address", "31_0 member 10");
    CHECK(t->r11 == src.m1.get(), "init_from/address", "31_0 member 11");
    CHECK(&t->r12 == src.m9.get(), "init_from/address", "31_0 member 12");
    CHECK(&t->r13 == src.m22.get(), "init_from/address", "31_0 member 13");
    CHECK(&t->r14 == src.m20.get(), "init_from/address", "31_0 member 14");
    CHECK(t->r15 == src.m9.get(), "init_from/address", "31_0 member 15");
    CHECK(&t->r16 == &src.m24, "init_from/address", "31_0 member 16");
    CHECK(&t->r17 == src.m8.get(), "init_from/address", "31_0 member 17");
    CHECK(&t->r18 == src.m22.get(), "init_from/address", "31_0 member 18");
    CHECK(t->r19 == src.m1.get(), "init_from/address", "31_0 member 19");
    CHECK(&t->r20 == &src.m21, "init_from/address", "31_0 member 20");
    CHECK(t->r21 == src.m0.get(), "init_from/address", "31_0 member 21");
    CHECK(t->r22 == src.m0.get(), "init_from/address", "31_0 member 22");
    CHECK(&t->r23 == &src.m15, "init_from/address", "31_0 member 23");
    CHECK(&t->r24 == &src.m27, "init_from/address", "31_0 member 24");
    CHECK(&t->r25 == src.m1.get(), "init_from/address", "31_0 member 25");
    CHECK(&t->r26 == &src.m3, "init_from/address", "31_0 member 26");
    CHECK(&t->r27 == &src.m14, "init_from/address", "31_0 member 27");
    CHECK(&t->r28 == &src.m3, "init_from/address", "31_0 member 28");
    c.count("init-members", 29);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, src.m4, src.m5.get(), &src.m6, src.m7.get(), src.m8.get(), src.m9.get(), src.m10.get(), src.m11.get(), &src.m12, src.m13, &src.m14, &src.m15, src.m16.get(), &src.m17, &src.m18, &src.m19, src.m20.get(), &src.m21, src.m22.get(), src.m23.get(), &src.m24, src.m25.get(), &src.m26, &src.m27, &src.m28, src.m29.get(), src.m30.get()), "init_from/source-changed", "31_0");
  c.count("inits"); c.distinct(vf::hcomb(124, s.pattern));
}
}  // namespace
SCENARIO(init_from_d, 480, 12000) {
  static void (*const fns[])(vf::ctx&) = {run_24_0, run_25_0, run_26_0, run_27_0, run_28_0, run_29_0, run_30_0, run_31_0};
  fns[c.idx % 8](c);
}
