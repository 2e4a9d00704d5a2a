From c893b0f38c40c37940bbfa500c8b3f0b2ea3855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 01/19] fix: generate the level-3 secret key instead of leaving
 it uninitialised

---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From a699aa35c31fca4df6056c00104f8bc5ff9089bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 02/19] fix: serialize every slot of the evaluation key

---
 include/cloudkey.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..df825be 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -390,8 +390,8 @@ struct EvalKey {
         archive(params, bklvl01, bklvlh1, bklvl02, bklvlh2, bkfftlvl01,
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
-                iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                iksklvl2h, iksklvl21, iksklvl22, iksklvl31, subiksklvl21,
+                privksklvl11, privksklvl21, privksklvl22, subprivksklvl21);
     }
 
     // emplace keys
-- 
2.43.0


From b35f8abb47534a36395e4ecf658c465993ad7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 03/19] fix: serialize the level-1 ports of an IO packet

---
 include/io-packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..cc5f927 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,8 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, tlwelvl1ports, trlwelvl2ports, trgswlvl2ports,
+                numCycles);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 72087e47718c19ef58fc0763ffe65d6311dd3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 04/19] fix: initialise, compare and serialize all fields of
 the parameter record

---
 include/lweParams.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..356e03d 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -46,6 +46,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(lvl1param::α),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
@@ -53,13 +54,13 @@ struct portablelvl1param {
     template <class Archive>
     void serialize(Archive& archive)
     {
-        archive(nbit, n, l, Bgbit, Bg, approx_bit);
+        archive(nbit, n, l, Bgbit, Bg, α, approx_bit);
     }
 
     bool operator==(const portablelvl1param& in) const
     {
         return (nbit == in.nbit) && (n == in.n) && (l == in.l) &&
-               (Bgbit == in.Bgbit) && (Bg == in.Bg) &&
+               (Bgbit == in.Bgbit) && (Bg == in.Bg) && (α == in.α) &&
                (approx_bit == in.approx_bit);
     };
 };
@@ -202,8 +203,8 @@ struct lweParams {
     void serialize(Archive& archive)
     {
         archive(lvl0.n, lvl0.α, lvl0.approx_bit, lvl1.nbit, lvl1.n, lvl1.l,
-                lvl1.Bgbit, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
-                lvl2.Bgbit, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
+                lvl1.Bgbit, lvl1.Bg, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n,
+                lvl2.l, lvl2.Bgbit, lvl2.Bg, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
                 lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
                 lvl21.basebit, lvl22.t, lvl22.basebit /*lvl22.α*/);
     }
-- 
2.43.0


From f374b943379cba9a6df4995501d48ed45216f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 05/19] fix: ExtractSwitchAndHomMUX must add mu, not the ring
 degree

---
 src/gate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..aac14e2 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -29,7 +29,7 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
         res[0][i] += and0[0][i];
         res[1][i] += and0[1][i];
     };
-    res[1][0] += lvl1param::n;
+    res[1][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From 0c405b4a27d98b55c7a114e92dc44998d93db464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 06/19] fix: HomMUXwoIKSandSE must offset the body of its own
 domain level

---
 include/gate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index bd4bd2c..9cbc44c 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -278,8 +278,8 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
     TLWE<typename bkP::domainP> temp0;
     for (int i = 0; i <= bkP::domainP::n; i++) temp1[i] = cs[i] + c1[i];
     for (int i = 0; i <= bkP::domainP::n; i++) temp0[i] = -cs[i] + c0[i];
-    temp1[lvl0param::n] -= bkP::domainP::μ;
-    temp0[lvl0param::n] -= bkP::domainP::μ;
+    temp1[bkP::domainP::n] -= bkP::domainP::μ;
+    temp0[bkP::domainP::n] -= bkP::domainP::μ;
     TRLWE<typename bkP::targetP> and0;
     BlindRotate<bkP>(res, temp1, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
-- 
2.43.0


From d5319e8db54cb69a12056a1ef511e54663f33789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 07/19] fix: SubsetPrivKeySwitch must take digits of the
 target-level word

---
 include/keyswitch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..31361d6 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -329,7 +329,7 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
 
         for (int j = 0; j < P::t; j++) {
             const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From 338a88e029d27a5ec7ef51cb3fa8657f5c0316b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:37 +0000
Subject: [PATCH 08/19] fix: 64-bit modular Gaussian must not convert negative
 doubles to unsigned

---
 include/utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 3255a0b..ccbf9be 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -132,7 +132,9 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         static const double _2p64 = std::pow(2., 64);
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
-        const uint64_t ival = static_cast<typename P::T>(val);
+        // A negative double must not be converted to an unsigned type directly.
+        const uint64_t ival =
+            static_cast<typename P::T>(static_cast<int64_t>(val));
         return ival + center;
     }
     else
-- 
2.43.0


From 8a1e1197a59fc748321b3fd65085697cc421529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:37 +0000
Subject: [PATCH 09/19] fix: tlweSymIntDecrypt must use the scale
 tlweSymIntEncrypt uses

---
 include/tlwe.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 4eb9406..f8cfb2f 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -109,7 +109,12 @@ typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 template <class P>
 typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 {
-    return tlweSymIntDecrypt<P, P::plain_modulus>(c, key);
+    // The inverse of tlweSymIntEncrypt, which scales by P::Δ. P::Δ *
+    // P::plain_modulus can be smaller than the torus (padding bits).
+    const typename P::T phase = tlweSymPhase<P>(c, key);
+    const typename P::T res =
+        static_cast<typename P::T>(std::round(phase / P::Δ)) % P::plain_modulus;
+    return res >= P::plain_modulus / 2 ? res - P::plain_modulus : res;
 }
 
 template <class P, std::make_signed_t<typename P::T> μ>
-- 
2.43.0


From 982f1f479689c3366bea89aa11c1d4bac364b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 10/19] fix: instantiate the encrypted-table BlindRotate with
 the bootstrapping parameter

---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..c39d8d6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From bae7fee6cdcb7a87212531ec43ee79f992f88902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 11/19] fix: GateBootstrappingNTT names iksP::targetP

---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index c39d8d6..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -260,7 +260,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From 89bf3d929ffbd134fcc8ea208a96c028720fe158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 12/19] =?UTF-8?q?fix:=20lvlhalfparam::=CE=BC=20is=20signed?=
 =?UTF-8?q?=20like=20the=20other=20levels,=20so=20that=20gates=20with=20ne?=
 =?UTF-8?q?gative=20offsets=20can=20be=20instantiated?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 include/params/128bit.hpp   | 3 ++-
 include/params/compress.hpp | 3 ++-
 include/params/concrete.hpp | 3 ++-
 include/params/ternary.hpp  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/params/128bit.hpp b/include/params/128bit.hpp
index d03c43b..a38c854 100644
--- a/include/params/128bit.hpp
+++ b/include/params/128bit.hpp
@@ -32,7 +32,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/compress.hpp b/include/params/compress.hpp
index 666530e..83d18ab 100644
--- a/include/params/compress.hpp
+++ b/include/params/compress.hpp
@@ -36,7 +36,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/concrete.hpp b/include/params/concrete.hpp
index 4524feb..ff99156 100644
--- a/include/params/concrete.hpp
+++ b/include/params/concrete.hpp
@@ -38,7 +38,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/ternary.hpp b/include/params/ternary.hpp
index b441e11..04e693d 100644
--- a/include/params/ternary.hpp
+++ b/include/params/ternary.hpp
@@ -33,7 +33,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
-- 
2.43.0


From 7c7a72685a05f4e34434038eae7b05a8ec5da403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 13/19] fix: annihilation must apply the smallest automorphism
 first

Halving a ciphertext leaves the top bit of each phase coefficient unknown;
with N+1 applied first the later automorphisms permuted coefficients already
cleared, so half of the cleared coefficients ended up at one half instead of
zero, in AnnihilateKeySwitching and in TLWE2TRLWEChengsPacking.
---
 include/keyswitch.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 31361d6..48a5a90 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -244,7 +244,9 @@ void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
                             const AnnihilateKey<P> &ahk)
 {
     res = trlwe;
-    for (int i = 0; i < P::nbit; i++) {
+    // Smallest automorphism first: coefficients cleared by a step must not be
+    // permuted by the later ones, because halving leaves the top bit unknown.
+    for (int i = P::nbit - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
         for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
@@ -378,7 +380,7 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
         tlwe.resize(1<<l);
     }
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
-    for (int i = 0; i < P::nbit - l; i++) {
+    for (int i = static_cast<int>(P::nbit - l) - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
         for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-- 
2.43.0


From 485f605695f844ec3c1d194aa9c04b8fb8ceb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 14/19] fix: INTorus += must allow its own value as operand

---
 include/INTorus.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/INTorus.hpp b/include/INTorus.hpp
index bf8b4db..7aa8d5a 100644
--- a/include/INTorus.hpp
+++ b/include/INTorus.hpp
@@ -33,11 +33,7 @@ public:
 
     INTorus &operator+=(const INTorus &b)
     {
-        this->value += b.value;
-        *this = INTorus(
-            this->value + static_cast<uint32_t>(
-                              -(this->value < b.value || this->value >= P)),
-            false);
+        *this = *this + b;
         return *this;
     }
 
-- 
2.43.0


From 5ba8e43a128d07d844e205ca26e5f970568379e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 15/19] fix: align the table of X^a-1 transforms of USE_TERNARY
 and USE_KEY_BUNDLE

---
 include/mulfft.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 50c48ac..120b829 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -368,10 +368,10 @@ inline void PolyMulNaieveRescaleUnsigned(Polynomial<P> &res,
 }
 
 template <class P>
-std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> XaittGen()
+std::unique_ptr<aligned_array<PolynomialInFD<P>, 2 * P::n>> XaittGen()
 {
-    std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> xaitt =
-        std::make_unique<std::array<PolynomialInFD<P>, 2 * P::n>>();
+    std::unique_ptr<aligned_array<PolynomialInFD<P>, 2 * P::n>> xaitt =
+        std::make_unique<aligned_array<PolynomialInFD<P>, 2 * P::n>>();
     for (int i = 0; i < 2 * P::n; i++) {
         std::array<typename P::T, P::n> xai = {};
         xai[0] = -1;
@@ -403,10 +403,10 @@ std::unique_ptr<std::array<PolynomialNTT<P>, 2 * P::n>> XaittGenNTT()
 
 #if defined(USE_TERNARY) || defined(USE_KEY_BUNDLE)
 alignas(64) static const std::unique_ptr<
-    const std::array<PolynomialInFD<lvl1param>, 2 * lvl1param::n>> xaittlvl1 =
+    const aligned_array<PolynomialInFD<lvl1param>, 2 * lvl1param::n>> xaittlvl1 =
     XaittGen<lvl1param>();
 alignas(64) static const std::unique_ptr<
-    const std::array<PolynomialInFD<lvl2param>, 2 * lvl2param::n>> xaittlvl2 =
+    const aligned_array<PolynomialInFD<lvl2param>, 2 * lvl2param::n>> xaittlvl2 =
     XaittGen<lvl2param>();
 #endif
 #ifdef USE_TERNARY
-- 
2.43.0


From 1b8b99b16612483223bb66501b4b30bac1ba6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 16/19] fix: multiply by X^a-1 in the transformed domain at
 lvl2 as well

---
 include/mulfft.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 120b829..db107f1 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -420,6 +420,11 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
+    else if constexpr (std::is_same_v<P, lvl2param>) {
+        MulInFD<P::n>(res, poly, (*xaittlvl2)[index]);
+    }
+    else
+        static_assert(false_v<typename P::T>, "Undefined PolynomialMulByXaiMinusOneInFD!");
 }
 #endif
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From b0d28c8abfe92bf73eab857cb7e39b231453e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 17/19] fix: keep the bundled bootstrapping key of
 USE_KEY_BUNDLE off the stack

---
 include/gatebootstrapping.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 1c717e6..9950822 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <limits>
+#include <memory>
 
 #include "cloudkey.hpp"
 #include "detwfa.hpp"
@@ -31,9 +32,11 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
     res = {};
     PolynomialMulByXai<typename P::targetP>(res[P::targetP::k], testvector, b̄);
 #ifdef USE_KEY_BUNDLE
-    alignas(64) std::array<TRGSWFFT<typename P::targetP>,
-                           P::domainP::k * P::domainP::n / P::Addends>
-        BKadded;
+    // Too large for the stack.
+    using BundledKey = aligned_array<TRGSWFFT<typename P::targetP>,
+                                     P::domainP::k * P::domainP::n / P::Addends>;
+    const std::unique_ptr<BundledKey> bkadded(new BundledKey);
+    BundledKey &BKadded = *bkadded;
 #pragma omp parallel for num_threads(8)
     for (int i = 0; i < P::domainP::k * P::domainP::n / P::Addends; i++) {
         constexpr typename P::domainP::T roundoffset =
@@ -85,9 +88,11 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
     for (int k = 0; k < P::targetP::k + 1; k++)
         PolynomialMulByXai<typename P::targetP>(res[k], testvector[k], b̄);
 #ifdef USE_KEY_BUNDLE
-    alignas(64) std::array<TRGSWFFT<typename P::targetP>,
-                           P::domainP::k * P::domainP::n / P::Addends>
-        BKadded;
+    // Too large for the stack.
+    using BundledKey = aligned_array<TRGSWFFT<typename P::targetP>,
+                                     P::domainP::k * P::domainP::n / P::Addends>;
+    const std::unique_ptr<BundledKey> bkadded(new BundledKey);
+    BundledKey &BKadded = *bkadded;
 #pragma omp parallel for num_threads(4)
     for (int i = 0; i < P::domainP::k * P::domainP::n / P::Addends; i++) {
         constexpr typename P::domainP::T roundoffset =
-- 
2.43.0


From 9b156b390f8902e2f359fab3480596f8f91316a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 18/19] fix: scale every SPQLIOS transform by its own length

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 31b0f34..8109a83 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -134,7 +134,7 @@ void FFT_Processor_Spqlios::execute_reverse_torus64(double* res, const uint64_t*
 
 void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *a) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -180,7 +180,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *
 
 void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double *a, const uint32_t q) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -226,7 +226,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double
 
 void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const double *a, const double Δ) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -270,7 +270,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double* a) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
@@ -340,7 +340,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const double* a, const double Δ) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
-- 
2.43.0


From 61773b60338770c683e6640bc28857998783e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 19/19] fix: give every thread its own FFTW processor,
 initialised on first use

---
 thirdparties/fftw/fft_processor_fftw.cpp | 18 ++++++++++++++----
 thirdparties/fftw/fft_processor_fftw.h   |  8 +++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/thirdparties/fftw/fft_processor_fftw.cpp b/thirdparties/fftw/fft_processor_fftw.cpp
index 36547ee..62f764f 100644
--- a/thirdparties/fftw/fft_processor_fftw.cpp
+++ b/thirdparties/fftw/fft_processor_fftw.cpp
@@ -7,14 +7,23 @@
 #include <cmath>
 #include <complex>
 #include <cstdint>
+#include <mutex>
 #include <params.hpp>
 #include <vector>
 
 #define CAST_DOUBLE_TO_UINT32(d) ((uint32_t)((int64_t)(d)))
 
+// Only the execution of plans is thread-safe in FFTW.
+static std::mutex &planner_mutex()
+{
+    static std::mutex mutex;
+    return mutex;
+}
+
 FFT_Processor_FFTW::FFT_Processor_FFTW(const int32_t N)
     : _2N(2 * N), N(N), Ns2(N / 2)
 {
+    const std::lock_guard<std::mutex> lock(planner_mutex());
     inbuf = (fftw_complex *)fftw_malloc(sizeof(fftw_complex) * Ns2);
     outbuf = (fftw_complex *)fftw_malloc(sizeof(fftw_complex) * Ns2);
     plan_forward =
@@ -158,11 +167,12 @@ void FFT_Processor_FFTW::execute_direct_torus64_rescale(uint64_t *res,
 
 FFT_Processor_FFTW::~FFT_Processor_FFTW()
 {
+    const std::lock_guard<std::mutex> lock(planner_mutex());
     fftw_destroy_plan(plan_forward);
     fftw_destroy_plan(plan_backward);
-    fftw_cleanup();
+    fftw_free(inbuf);
+    fftw_free(outbuf);
 }
 
-// FFT_Processor_FFTW is thread-safe
-FFT_Processor_FFTW fftplvl1(TFHEpp::lvl1param::n);
-FFT_Processor_FFTW fftplvl2(TFHEpp::lvl2param::n);
\ No newline at end of file
+thread_local FFT_Processor_FFTW fftplvl1(TFHEpp::lvl1param::n);
+thread_local FFT_Processor_FFTW fftplvl2(TFHEpp::lvl2param::n);
\ No newline at end of file
diff --git a/thirdparties/fftw/fft_processor_fftw.h b/thirdparties/fftw/fft_processor_fftw.h
index 1d36c77..e8bec42 100644
--- a/thirdparties/fftw/fft_processor_fftw.h
+++ b/thirdparties/fftw/fft_processor_fftw.h
@@ -46,6 +46,8 @@ public:
     ~FFT_Processor_FFTW();
 };
 
-// FFT_Processor_FFTW is thread-safe
-extern FFT_Processor_FFTW fftplvl1;
-extern FFT_Processor_FFTW fftplvl2;
\ No newline at end of file
+// A processor owns its buffers, so that every thread needs its own. As
+// thread_local variables they are also initialised on first use, which may
+// come from the initialisation of a global variable elsewhere.
+extern thread_local FFT_Processor_FFTW fftplvl1;
+extern thread_local FFT_Processor_FFTW fftplvl2;
\ No newline at end of file
-- 
2.43.0

