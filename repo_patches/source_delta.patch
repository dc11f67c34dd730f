From 9de424198d00318915e1b963298d15de4e7ef43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 01/29] fix: reduce the last coefficient of Fp6Dbl::mul on
 SNARK curves

The imaginary part of c is a sum of three products (up to 6p^2), which exceeds
pN for the SNARK prime, so Montgomery reduction returned a value >= p.
---
 include/bn.h | 5 +++++
 src/zm2.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..47a31bc 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1323,7 +1323,12 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+#ifdef BN_SUPPORT_SNARK
+			// the sum may exceed pN because 6p^2 > pN
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..627555c 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2252,8 +2252,13 @@ L("@@");
 		// FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
+#ifdef BN_SUPPORT_SNARK
+		// FpDbl::add(z.c_.b_, z.c_.b_, T1.b_);
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From fe7bf84b46856c7511077283a686943a2eecd63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 02/29] fix: negation of a zero double-width element

in_FpDbl_neg tested the output pointer instead of the lowest word, so it never
saw zero and returned pN.
---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 627555c..55610c3 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From c93ba2ab1e41602617e86270eaec7a59a24ca119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 03/29] fix: Fp2T::squareC used a + a for a + b

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index 47a31bc..bb76de4 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -493,7 +493,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From c5edb03d4cd266d45eab2399c5192e95c89d868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 04/29] fix: VuintT::bitLen was one too large when conversion
 to double rounds up

---
 include/zm.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 3763b45..0fbedbb 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -527,12 +527,12 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	{
 		if (isZero()) return 0;
 
-		size_t size = this->size();
-		T v = (*this)[size - 1];
-		union di t;
-		t.f = (double)v;
-		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
-			(size - 1) * sizeof(T) * 8;
+		const size_t size = this->size();
+		size_t ret = (size - 1) * sizeof(T) * 8;
+		// don't use double because of rounding up to a power of two
+		for (T v = (*this)[size - 1]; v; v >>= 1) {
+			ret++;
+		}
 		return ret;
 	}
 
-- 
2.43.0


From 9f9684949c922bd04e500a730893ea1335270d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 05/29] fix: VuintT::testBit read stale words beyond the value

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 0fbedbb..618cd15 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -540,6 +540,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	{
 		size_t unit_pos = i / (sizeof(T) * 8);
 		size_t bit_pos  = i % (sizeof(T) * 8);
+		if (unit_pos >= size()) return false;
 		T mask = T(1) << bit_pos;
 		return ((*this)[unit_pos] & mask) != 0;
 	}
-- 
2.43.0


From cfa21d8c8e1df3ee689257517fb869a34b6ae584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 06/29] fix: VuintT::add truncated a 64-bit word operand to 32
 bits

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 618cd15..ee5552f 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -572,7 +572,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 			out.trim();
 		}
 	}
-	static inline void add(VuintT& out, const VuintT& x, uint32_t y)
+	static inline void add(VuintT& out, const VuintT& x, T y)
 	{
 		const size_t n = x.size();
 		out.alloc(n);
-- 
2.43.0


From e9ed978b2a72bc08f8c1a39619e22a1920ba2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 07/29] fix: VuintT::sub silently returned x - y mod 2^n when y
 has more words

---
 include/zm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zm.h b/include/zm.h
index ee5552f..7d782e9 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -597,6 +597,9 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 	static void sub(VuintT& out, const VuintT& x, const VuintT& y)
 	{
+		if (x.size() < y.size()) {
+			local::errExit("can't sub");
+		}
 		bool c = sub_in(out, x, y);
 		if (c) {
 			local::errExit("can't sub");
-- 
2.43.0


From 896c71088185a309995c0450db41494ebbfb4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 08/29] fix: VsintT(int) for INT_MIN

---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 7d782e9..b688deb 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -970,7 +970,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? value_type(0) - value_type(x) : value_type(x)) // ::abs(INT_MIN) is negative
 		, isNeg_(x < 0)
 	{
 	}
@@ -990,7 +990,7 @@ public:
 	void set(int64_t x)
 	{
 		isNeg_ = x < 0;
-		v_.set(isNeg_ ? -x : x);
+		v_.set(isNeg_ ? value_type(0) - value_type(x) : value_type(x));
 	}
 	void set(const V& x)
 	{
-- 
2.43.0


From 1d8f80a10414c973c36445decac23374daf62e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 09/29] fix: VsintT::set from unsigned values kept the previous
 sign

---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index b688deb..e13843a 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -986,6 +986,7 @@ public:
 	void set(value_type x)
 	{
 		v_.set(x);
+		isNeg_ = false;
 	}
 	void set(int64_t x)
 	{
@@ -997,7 +998,7 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); isNeg_ = false; }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
-- 
2.43.0


From 58230c9640a506e0356bf5fcc6ba0985aaec581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 10/29] fix: Fp::set(int) for INT_MIN

---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..7853cb9 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = mie::Unit(0) - mie::Unit(x); // -x overflows for INT_MIN
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From 04628a16573f2e2fd3661a0b86acac7c6587614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 11/29] fix: ZmZ::set(int) for |x| >= modulus

---
 include/zm.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index e13843a..234da0e 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1204,14 +1204,10 @@ public:
 	{
 		if (x == 0) {
 			v_.clear();
-		} else if (x > 0) {
-			v_.set(x);
 		} else {
-			if (x == -2147483647 - 1 || m_ < -x) {
-				local::errExit("x is too small");
-			}
-			v_ = m_;
-			v_ -= -x;
+			v_.set(x > 0 ? value_type(x) : value_type(0) - value_type(x));
+			modulo();
+			if (x < 0) neg(*this, *this);
 		}
 	}
 	void set(const std::string& str)
-- 
2.43.0


From 875ef95fbbeeaa876b0b703f8fd5f8adbd1d82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 12/29] fix: VuintT::set(str) misread or exited on malformed
 digit strings and leading zeros

---
 include/zm.h | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 234da0e..c9b1f2a 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -446,27 +446,26 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	/*
 		@param str [in] number string
 		@note "0x..."   => base = 16
-		      "0b..."   => base = 2
 		      otherwise => base = 10
+		throw std::invalid_argument if str is not a sequence of digits
 	*/
 	void set(const std::string& str, int base = 0)
 	{
-		std::string t;
-		if (str.size() >= 2 && str[0] == '0') {
-			switch (str[1]) {
-			case 'x':
-				if (base != 0 && base != 16) local::errExit("bad base in set(str)");
-				base = 16;
-				t = str.substr(2);
-				break;
-			default:
-				local::errExit("not support base in set(str) 0x");
-			}
+		std::string t = str;
+		if (str.size() >= 2 && str[0] == '0' && str[1] == 'x') {
+			if (base != 0 && base != 16) throw std::invalid_argument(std::string("bad base `") + str + "`");
+			base = 16;
+			t = str.substr(2);
 		}
 		if (base == 0) {
 			base = 10;
 		}
-		if (t.empty()) t = str;
+		// strtol accepts signs, spaces and prefixes, then check all characters here
+		if (t.empty() || t.find_first_not_of(base == 16 ? "0123456789abcdefABCDEF" : "0123456789") != std::string::npos) {
+			throw std::invalid_argument(std::string("bad digit `") + str + "`");
+		}
+		// remove leading zeros
+		t.erase(0, (std::min)(t.find_first_not_of('0'), t.size() - 1));
 
 		switch (base) {
 		case 16:
@@ -474,10 +473,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 				std::vector<uint32_t> x;
 				while (!t.empty()) {
 					size_t remain = (std::min)((int)t.size(), 8);
-					char *endp;
-					uint32_t v = strtoul(&t[t.size() - remain], &endp, 16);
-					if (*endp) goto ERR;
-					x.push_back(v);
+					x.push_back((uint32_t)strtoul(&t[t.size() - remain], 0, 16));
 					t = t.substr(0, t.size() - remain);
 				}
 				set(&x[0], x.size());
@@ -489,10 +485,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 				std::vector<uint32_t> x;
 				while (!t.empty()) {
 					size_t remain = (std::min)((int)t.size(), 9);
-					char *endp;
-					uint32_t v = strtol(&t[t.size() - remain], &endp, 10);
-					if (*endp) goto ERR;
-					x.push_back(v);
+					x.push_back((uint32_t)strtoul(&t[t.size() - remain], 0, 10));
 					t = t.substr(0, t.size() - remain);
 				}
 				clear();
@@ -503,9 +496,6 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 			}
 			break;
 		}
-		return;
-	ERR:
-		throw std::invalid_argument(std::string("bad digit `") + str + "`");
 	}
 	void fromStr(const std::string& str, int base = 10)
 	{
-- 
2.43.0


From ae914a96317a771969db73747a2cb1197b4433bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 13/29] fix: VsintT::set(str) rejected its own hex output and
 zero was printed as -0

---
 include/zm.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index c9b1f2a..24e26d5 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -994,18 +994,14 @@ public:
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
 	std::string toString(int base = 10) const
 	{
-		if (isNeg_) return "-" + v_.toString(base);
+		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
-	void set(const std::string& str, int base = 10)
+	void set(const std::string& str, int base = 0)
 	{
-		isNeg_ = false;
-		if (str.size() > 0 && str[0] == '-') {
-			isNeg_ = true;
-			v_.set(&str[1], base);
-		} else {
-			v_.set(str, base);
-		}
+		const bool isNeg = str.size() > 0 && str[0] == '-';
+		v_.set(isNeg ? str.substr(1) : str, base);
+		isNeg_ = isNeg;
 	}
 	void fromStr(const std::string& str, int base = 10)
 	{
@@ -1107,7 +1103,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
+		if (x.isNegative()) os << "-";
 		return os << x.v_;
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
-- 
2.43.0


From 06416f7ab4c5182efb69e405d43a89f1f67ab0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 14/29] fix: reading an integer at the end of a stream left the
 stream failed, no digits gave 0

---
 include/zm.h  | 29 +++++++++++++----------------
 include/zm2.h |  3 +--
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 24e26d5..4734930 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -83,26 +83,25 @@ namespace local {
 
 inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNegative = false)
 {
-	std::ios_base::fmtflags keep = is.flags();
-	size_t pos = 0;
-	char c;
-	while (is >> c) {
+	std::istream::sentry ok(is); // skip white space
+	if (!ok) return is;
+	for (;;) {
+		// peek does not set failbit at the end of the stream
+		const std::istream::int_type i = is.peek();
+		if (i == std::istream::traits_type::eof()) break;
+		const char c = std::istream::traits_type::to_char_type(i);
 		if (('0' <= c && c <= '9') /* digits */
-		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
+		  || (c == 'x' && (str == "0" || str == "-0")) /* 0x.. */
 		  || ('a' <= c && c <= 'f') /* lowercase hex */
 		  || ('A' <= c && c <= 'F') /* uppercase hex */
-		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
+		  || (allowNegative && str.empty() && c == '-')) { /* -digits */
 			str.push_back(c);
-			if (pos == 0) {
-				is >> std::noskipws;
-			}
-			pos++;
+			is.ignore();
 		} else {
-			is.unget();
 			break;
 		}
 	}
-	is.flags(keep);
+	if (str.empty()) is.setstate(std::ios_base::failbit);
 	return is;
 }
 
@@ -726,8 +725,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	inline friend std::istream& operator>>(std::istream& is, VuintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str);
-		x.set(str);
+		if (local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 
@@ -1109,8 +1107,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str, true);
-		x.set(str);
+		if (local::getDigits(is, str, true)) x.set(str);
 		return is;
 	}
 	static inline void shl(VsintT& out, const VsintT& x, size_t n)
diff --git a/include/zm2.h b/include/zm2.h
index 7853cb9..1c7390a 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -120,8 +120,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, Fp& x)
 	{
 		std::string str;
-		mie::local::getDigits(is, str);
-		x.set(str);
+		if (mie::local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 	MIE_FORCE_INLINE bool isZero() const
-- 
2.43.0


From 976564f6caf6d56af2f20d86b50d61ebcf2ab895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 15/29] fix: operator>> of Fp2, Fp6, Fp12 compared
 uninitialized delimiters, set(str) ignored trailing characters

---
 include/bn.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index bb76de4..e70b383 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -528,7 +528,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	}
 	friend std::istream& operator>>(std::istream& is, Fp2T& x)
 	{
-		char cl, cm, cr;
+		char cl = 0, cm = 0, cr = 0;
 		is >> cl >> x.a_ >> cm >> x.b_ >> cr;
 		if (cl == '[' && cm == ',' && cr == ']') return is;
 		throw std::ios_base::failure("bad Fp2");
@@ -543,6 +543,8 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	{
 		std::istringstream iss(str);
 		iss >> *this;
+		char c;
+		if (iss >> c) throw std::ios_base::failure("bad Fp2");
 	}
 
 	// z = x * b
@@ -973,7 +975,7 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 	}
 	friend std::istream& operator>>(std::istream& is, Fp6T& x)
 	{
-		char c1, c2, c3, c4;
+		char c1 = 0, c2 = 0, c3 = 0, c4 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3 >> x.c_ >> c4;
 		if (c1 == '[' && c2 == ',' && c3 == ',' && c4 == ']') return is;
 		throw std::ios_base::failure("bad Fp6");
@@ -1429,7 +1431,7 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 	}
 	friend std::istream& operator>>(std::istream& is, Fp12T& x)
 	{
-		char c1, c2, c3;
+		char c1 = 0, c2 = 0, c3 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3;
 		if (c1 == '[' && c2 == ',' && c3 == ']') return is;
 		throw std::ios_base::failure("bad Fp12");
@@ -2938,9 +2940,8 @@ public:
 			if (pos == std::string::npos) {
 				throw std::runtime_error("operator>>:bad format");
 			}
-			str[pos] = '\0';
-			self.p[0].set(&str[0]);
-			self.p[1].set(&str[pos + 1]);
+			self.p[0].set(str.substr(0, pos));
+			self.p[1].set(str.substr(pos + 1));
 		}
 		return is;
 	}
-- 
2.43.0


From 8cf845b6a5f0095fc4caee1329e0b151aed800b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 16/29] fix: changing the SNARK curve by Param::init kept line
 evaluation code for the first curve

---
 src/zm2.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 55610c3..65e2530 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3076,16 +3076,22 @@ L("@@");
 
 #ifdef BN_SUPPORT_SNARK
 		// (a + bu) * binv_xi
-		if (ParamT<Fp2>::b == 82) {
-			// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
-			in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
-			in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
-		} else {
-			lea(gp1, ptr [t2]);
-			lea(gp2, ptr [t0]);
-			mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
-			call(p_Fp2_mul);
-		}
+		// the code is generated only once, but b may be changed by Param::init
+		inLocalLabel();
+		mov(rax, (size_t)&ParamT<Fp2>::b);
+		cmp(dword [rax], 82);
+		jne(".general", T_NEAR);
+		// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
+		in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
+		in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
+		jmp(".exit", T_NEAR);
+	L(".general");
+		lea(gp1, ptr [t2]);
+		lea(gp2, ptr [t0]);
+		mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
+		call(p_Fp2_mul);
+	L(".exit");
+		outLocalLabel();
 #else
 		// Fp::add(t2.a_, t0.a_, t0.b_);
 		in_Fp_add(t2.a_, t0.a_, t0.b_);
-- 
2.43.0


From f49abc3b4a175d85ac021d2f05004fe7aa14910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 17/29] fix: ScalarMult ignored the sign of the scalar and
 misread its words if negative

---
 include/bn.h | 10 ++++++++--
 include/zm.h |  5 +++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index e70b383..e00552e 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -24,7 +24,7 @@ inline size_t M_bitLen(const mpz_class& x)
 }
 inline size_t M_blockSize(const mpz_class& x)
 {
-	return x.get_mpz_t()->_mp_size;
+	return mpz_size(x.get_mpz_t()); // _mp_size is negative if x < 0
 }
 inline mp_limb_t M_block(const mpz_class& x, size_t i)
 {
@@ -2606,7 +2606,13 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 		return;
 	}
 	FF inCopy[3];
-	if (out == in) {
+	if (m < 0) {
+		// the blocks of m are those of |m|
+		inCopy[0] = in[0];
+		FF::neg(inCopy[1], in[1]);
+		inCopy[2] = in[2];
+		in = inCopy;
+	} else if (out == in) {
 		ecop::copy(inCopy, in);
 		in = inCopy;
 	}
diff --git a/include/zm.h b/include/zm.h
index 4734930..1c7d16a 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1341,10 +1341,11 @@ struct IntTag {
 
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
+	// |x|
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0U - (unsigned int)x : (unsigned int)x;
 	}
 	static inline size_t getBlockSize(const int&)
 	{
-- 
2.43.0


From 48cd9245eaf8066095405a0d7d5b7622f2934721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 18/29] fix: Java Ec2() left the point uninitialized

---
 java/bn254_if.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 3bfad73..91307f7 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -199,7 +199,7 @@ class Ec2 {
 	::bn::Ec2 self_;
 	friend class Fp12;
 public:
-	Ec2() {}
+	Ec2() { self_.clear(); }
 	Ec2(const Ec2& x) : self_(x.self_) {}
 	Ec2(const Fp2& x, const Fp2& y) throw(std::exception)
 	{
-- 
2.43.0


From af9653b643678119507d46c55e5310a0425510f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 19/29] fix: Java Mpz ignored bad strings and crashed on mod
 zero, set(str) ignored trailing characters

---
 java/bn254_if.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 91307f7..1372275 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -39,7 +39,7 @@ public:
 	void set(int x) throw(std::exception) { self_ = x; }
 	void set(const std::string& str) throw(std::exception)
 	{
-		self_.set_str(str, 0);
+		if (self_.set_str(str, 0) != 0) throw std::invalid_argument("bad Mpz `" + str + "`");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -50,7 +50,11 @@ public:
 	void add(const Mpz& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Mpz& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Mpz& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void mod(const Mpz& rhs) throw(std::exception) { self_ %= rhs.self_; }
+	void mod(const Mpz& rhs) throw(std::exception)
+	{
+		if (rhs.self_ == 0) throw std::domain_error("Mpz mod zero");
+		self_ %= rhs.self_;
+	}
 };
 
 class Fp {
@@ -130,6 +134,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("bad string `" + str + "`");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -175,6 +181,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("bad string `" + str + "`");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -222,6 +230,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("bad string `" + str + "`");
 	}
 	std::string toString() const throw(std::exception)
 	{
-- 
2.43.0


From de3a700e59a3efc07942d4b6a7971dfbef5f9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 20/29] fix: fast_modp returned wrong residues on SNARK curves

---
 include/zm2.h | 3 +++
 src/zm2.cpp   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/zm2.h b/include/zm2.h
index 1c7390a..f4d3a4e 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -230,6 +230,9 @@ public:
 	static inline void fast_modp(Fp &z)
 	{
 		uint64_t t = z.v_[3] >> 61;
+#ifdef BN_SUPPORT_SNARK
+		t = ((t + 1) * 21) >> 5; // floor((t + 1) * 2^253 / p)
+#endif
 		z -= getDirectP((int)t);
 	}
 
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 65e2530..e4e8540 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1690,6 +1690,11 @@ L("@@");
 		const Reg64& a = rax;
 		mov(rdx, x3);
 		shr(rdx, 61); // rdx = [0:x3_63:x3_62:x3_61]
+#ifdef BN_SUPPORT_SNARK
+		add(rdx, 1);
+		imul(rdx, rdx, 21);
+		shr(rdx, 5); // floor((rdx + 1) * 2^253 / p)
+#endif
 
 		shl(rdx, 5); // sizeof(Fp) = 32
 		mov(a, (uint64_t)&s_pTbl[0]);
-- 
2.43.0


From f507ee783abe73eb547269fd3383f398a6af98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 21/29] fix: dividing by a Vuint of full length exited

---
 include/zm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 1c7d16a..d85ea9b 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -921,8 +921,7 @@ public:
 		if (q) {
 			std::fill(q, q + xn - yn + 1, 0);
 		}
-		Buffer t;
-		t.alloc(yn + 1);
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (yn + 1)); // may be larger than Buffer
 		double yt = GetApp(y, yn, true);
 		while (F::compare(x, xn, y, yn) >= 0) {
 			size_t len = yn;
-- 
2.43.0


From 58ea87f85579384168e89aecc2dcba40e88f5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 22/29] fix: multiplying Vuints exited although the product
 fits

---
 include/zm.h | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index d85ea9b..474b72e 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -599,32 +599,17 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	static void mul1(VuintT& out, const VuintT& x, T y)
 	{
 		const size_t xn = x.size();
-		out.alloc(xn + 1);
-		F::mul1(&out[0], &x[0], xn, y);
-		out.trim();
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (xn + 1)); // may be larger than Buffer
+		F::mul1(t, &x[0], xn, y);
+		out.setTrimmed(t, xn + 1);
 	}
 	static void mul(VuintT& out, const VuintT& x, const VuintT& y)
 	{
 		const size_t xn = x.size();
 		const size_t yn = y.size();
-
-		VuintT xt, yt;
-		const Unit *px = &x[0], *py = &y[0];
-		if (&out == &x) {
-			xt = x;
-			px = &xt[0];
-		}
-		if (&out == &y) {
-			if (&x == &y) {
-				py = px;
-			} else {
-				yt = y;
-				py = &yt[0];
-			}
-		}
-		out.alloc(xn + yn);
-		mul(&out[0], px, xn, py, yn);
-		out.trim();
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (xn + yn)); // may be larger than Buffer
+		mul(t, &x[0], xn, &y[0], yn);
+		out.setTrimmed(t, xn + yn);
 	}
 	/**
 		@param q [out] q = x / y
@@ -893,6 +878,13 @@ public:
 		}
 		Buffer::alloc(i ? i + 1: 1);
 	}
+	// set x[0..n) without leading zeros; x must not be a part of *this
+	void setTrimmed(const T *x, size_t n)
+	{
+		while (n > 1 && x[n - 1] == 0) n--;
+		Buffer::alloc(n);
+		std::copy(x, x + n, &(*this)[0]);
+	}
 	static inline void mul(T *out, const T *x, size_t xn, const T *y, size_t yn)
 	{
 		assert(xn > 0 && yn > 0);
-- 
2.43.0


From 3ade6d93f92203b457ca38524fe4a4366cb4a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 23/29] fix: power exited although the result fits

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 474b72e..77c18ff 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1381,6 +1381,7 @@ T power(const T& x, const S& y)
 			if (v & (value_type(1) << j)) {
 				out *= t;
 			}
+			if (i == n - 1 && j == m - 1) break; // the next square is not used and may not fit T
 			t *= t;
 		}
 	}
-- 
2.43.0


From 313996425d53a2de67add09e46f1e1e9a41043f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 24/29] fix: generated Compress::square_n looped 2^64 times for
 n = 0 and read the upper half of n

---
 src/zm2.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index e4e8540..0be87a7 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2375,11 +2375,15 @@ L("@@");
 		const int g3 = sizeof(Fp2) * 2;
 		const int g4 = sizeof(Fp2) * 1;
 		const int g5 = sizeof(Fp2) * 5;
+		const Reg32 n(gp2.getIdx());
+
+		inLocalLabel();
+		test(n, n);
+		jle(".exit", T_NEAR);
 		mov(z, ptr [gp1]);
-		mov(ptr [rsp + nsave], gp2);
+		mov(ptr [rsp + nsave], n);
 		movq(zsave, z);
 
-		inLocalLabel();
 	L(".lp");
 
 		// Fp2Dbl::square(T0, z.g4_);
@@ -2536,8 +2540,9 @@ L("@@");
 		in_Fp2_add(z + g5, z + g5, t0);
 #endif
 
-		sub(qword [rsp + nsave], 1);
+		sub(dword [rsp + nsave], 1);
 		jnz(".lp", T_NEAR);
+	L(".exit");
 		outLocalLabel();
 	}
 	/*
-- 
2.43.0


From 14efe54de65f6cbde0863bfb4ca6ff2a54c896e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 25/29] fix: portable Fp::sub subtracted p instead of the
 second operand

---
 src/zm2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0be87a7..9ff4a8d 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -92,7 +92,7 @@ static inline void Fp_subC(Fp& out, const Fp& x, const Fp& y)
 	if (a < b) {
 		a = a + p - b;
 	} else {
-		a -= p;
+		a -= b;
 	}
 	Fp::setDirect(out, a);
 }
-- 
2.43.0


From fa807891a3bebb8f05b56e5645be41ba7db784d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 26/29] fix: FpDbl::subOpt1 added p N/2 where the generated
 code adds p N/4, too large for portable Fp6Dbl::mul

---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index f4d3a4e..9ef7982 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -385,7 +385,7 @@ public:
 		{
 			assert(&z != &x);
 			assert(&z != &y);
-			addNC(z, x, pNTbl_[1]);
+			addNC(z, x, pNTbl_[2]);
 			subNC(z, z, y);
 		}
 
-- 
2.43.0


From abf189fa985085bc441b46bf8613bf057e1cb792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 27/29] fix: a numeral or result beyond the capacity of VuintT
 terminated the process

---
 include/zm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 77c18ff..dbb4a45 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -300,8 +300,7 @@ public:
 	void verify(size_t n) const
 	{
 		if (n > N) {
-			printf("n=%d, N=%d\n", (int)n, (int)N);
-			local::errExit("too large size. increase MIE_ZM_VUINT_BIT_LEN in include/zm.h");
+			throw std::length_error("too large size. increase MIE_ZM_VUINT_BIT_LEN in include/zm.h");
 		}
 	}
 	const T& operator[](size_t n) const { verify(n); return v_[n]; }
-- 
2.43.0


From 5ce8934030ecea55f81993d8ac4786441d811ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 28/29] fix: Fp12::pow_neg_t was wrong when the result
 overwrites the operand

---
 include/bn.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index e00552e..e8c053c 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1762,15 +1762,16 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 #ifdef BN_SUPPORT_SNARK
 	static void pow_neg_t(Fp12T &out, const Fp12T &in)
 	{
-		out = in;
+		const Fp12T x = in; // out may be the same object as in
+		out = x;
 		Fp12T inConj;
-		inConj.a_ = in.a_;
-		Fp6::neg(inConj.b_, in.b_); // in^-1 == in^(p^6)
+		inConj.a_ = x.a_;
+		Fp6::neg(inConj.b_, x.b_); // in^-1 == in^(p^6)
 
 		for (size_t i = 1; i < Param::zReplTbl.size(); i++) {
 			out.sqru();
 			if (Param::zReplTbl[i] > 0) {
-				Fp12T::mul(out, out, in);
+				Fp12T::mul(out, out, x);
 			} else if (Param::zReplTbl[i] < 0) {
 				Fp12T::mul(out, out, inConj);
 			}
-- 
2.43.0


From ff4009df08bb4a7bf8d40df510d61036193785af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:24 +0000
Subject: [PATCH 29/29] fix: a negative power in the Java API was the positive
 power

Fp, Fp2 and Fp12 of java/bn254_if.hpp passed a Mpz of any sign to mie::power,
which takes an unsigned exponent: power(-n) gave x^n. It is now the
inverse of x^n, and an exception for a zero base.
---
 java/bn254_if.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 1372275..ec751ad 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -9,6 +9,7 @@
 #ifndef MIE_ATE_USE_GMP
 	#define MIE_ATE_USE_GMP
 #endif
+#include <stdexcept>
 #include "bn.h"
 
 inline void SystemInit() throw(std::exception)
@@ -21,6 +22,22 @@ class Fp12;
 class Ec1;
 class Ec2;
 
+/**
+	x = x^n ; the inverse of x^|n| if n < 0
+*/
+template<class T>
+void PowerMpz(T& x, const mpz_class& n)
+{
+	if (n < 0) {
+		if (x.isZero()) throw std::domain_error("negative power of zero");
+		const mpz_class m = -n;
+		x = mie::power(x, m);
+		x.inverse();
+	} else {
+		x = mie::power(x, n);
+	}
+}
+
 class Mpz {
 	mpz_class self_;
 	friend class Fp;
@@ -82,9 +99,9 @@ public:
 	void add(const Fp& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Fp& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
-		self_ = mie::power(self_, x.self_);
+		PowerMpz(self_, x.self_);
 	}
 };
 
@@ -118,9 +135,9 @@ public:
 	void add(const Fp2& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Fp2& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp2& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
-		self_ = mie::power(self_, x.self_);
+		PowerMpz(self_, x.self_);
 	}
 };
 
@@ -148,9 +165,9 @@ public:
 	void sub(const Fp12& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp12& rhs) throw(std::exception) { self_ *= rhs.self_; }
 	void pairing(const Ec2& ec2, const Ec1& ec1);
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
-		self_ = mie::power(self_, x.self_);
+		PowerMpz(self_, x.self_);
 	}
 };
 
-- 
2.43.0

