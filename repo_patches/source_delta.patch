From 4bf13dc669c3eb33476e2819c34e31ec9c6026a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 01/19] fix: MurmurHash3 hashes exactly the bytes of the
 element's representation

The digest read 4*len bytes from a len-byte string (past the end of the
buffer), and every case of the tail switch ended in break, so the tail never
reached the digest. Equal elements got different digests depending on stale
memory, and the protocol lost common elements.
---
 src/libeopsi/murmurhash3.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7f0f670..6ba7da4 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -351,57 +351,57 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k2 ^= ((uint64_t)tail[14]) << 48;
-      break;
+      /* FALLTHRU */
     case 14:
       k2 ^= ((uint64_t)tail[13]) << 40;
-      break;
+      /* FALLTHRU */
     case 13:
       k2 ^= ((uint64_t)tail[12]) << 32;
-      break;
+      /* FALLTHRU */
     case 12:
       k2 ^= ((uint64_t)tail[11]) << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k2 ^= ((uint64_t)tail[10]) << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k2 ^= ((uint64_t)tail[ 9]) << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k2 ^= ((uint64_t)tail[ 8]) << 0;
       k2 *= c2;
       k2  = ROTL64(k2,33);
       k2 *= c1;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  8:
       k1 ^= ((uint64_t)tail[ 7]) << 56;
-      break;
+      /* FALLTHRU */
     case  7:
       k1 ^= ((uint64_t)tail[ 6]) << 48;
-      break;
+      /* FALLTHRU */
     case  6:
       k1 ^= ((uint64_t)tail[ 5]) << 40;
-      break;
+      /* FALLTHRU */
     case  5:
       k1 ^= ((uint64_t)tail[ 4]) << 32;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= ((uint64_t)tail[ 3]) << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= ((uint64_t)tail[ 2]) << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= ((uint64_t)tail[ 1]) << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= ((uint64_t)tail[ 0]) << 0;
       k1 *= c1;
       k1  = ROTL64(k1,31);
       k1 *= c2;
       h1 ^= k1;
-      break;
+      /* FALLTHRU */
     default:
       break;
   };
@@ -457,7 +457,7 @@ byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-  murmurHash3_x64_128((const void *) zzString.c_str(), 4*truncLen, (void *) this->hash128);
+  murmurHash3_x64_128((const void *) zzString.c_str(), truncLen, (void *) this->hash128);
   return this->hash128;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 012dda29ce523724b086e1e56c5589639e308464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 02/19] fix: zero is a valid element of the intersection

A root equal to zero has no bit set, so its count of trailing zeros is
reported as 0 and the element was always dropped.
---
 src/libeopsi/zzppoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index f0100a2..af57719 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -149,7 +149,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection() {
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
@@ -224,7 +224,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
-- 
2.43.0


From ccc0866d4948285cab8e1a810d80adfddead1491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 03/19] fix: a client can take part in more than one
 computation

After an intersection the freed partial results were still referenced, and a
delegated client kept a reference to the polynomial it had handed over: the
next computation read and freed them again.
---
 src/libeopsi/eopsiclient.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8ab2795..e3c4790 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -70,7 +70,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   byte *data = nullptr;
   size_t dataLen, tmpKeyByteSize, i;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
-  NTL::vec_ZZ_p setcap;
+  NTL::vec_ZZ_p *delegated;
   
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
@@ -161,8 +161,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       /*
        * 2. Send q to client
        */
-      q = delegationOutput(otherSecret, tmpKey);
-      msgToClient.setData((void *) q, 1);
+      delegated = delegationOutput(otherSecret, tmpKey);
+      msgToClient.setData((void *) delegated, 1);
       msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
       msgToClient.setPartyId(this->getId());
       
@@ -183,6 +183,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_OUTPUT_COMPUTATION << ". Receiving partial intersection data \"t\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       
@@ -199,6 +201,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_POLYNOMIAL << ". Receiving partial intersection data \"q\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       break;
-- 
2.43.0


From e77353eae223f63f953200d6bfc87fa3502022c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 04/19] fix: the delegated client uses the whole secret of the
 requester

Only three bytes of the requester's secret were read, so every longer (or
shorter) secret led to a wrong intersection.
---
 src/libeopsi/eopsiclient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index e3c4790..c592ee1 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -93,6 +93,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
+      if (msg->length() < msgClaimedId.length() + 2) {
+        throw ProtocolException("Computation request too short");
+      }
       
       /*
        * 1. Send outsourcing request to the cloud
@@ -144,7 +147,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
       // Reception feedback
       otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, 3);
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 2);
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
-- 
2.43.0


From e9e36f0d92ffb0af74e4f41cddf1314de162bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 05/19] fix: a client refuses messages of unknown parties

isAuthorised() dereferenced a null pointer for a sender that was never
authenticated, so the client crashed instead of throwing ProtocolException.
---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index c592ee1..38ef866 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -229,7 +229,7 @@ bool EOPSIClient::isAuthorised(const EOPSIMessage *msg) const {
   }
   
   sender = getPartyById(msg->getPartyId());
-  if (!hasAuthenticated(*sender)) {
+  if (sender == nullptr || !hasAuthenticated(*sender)) {
     return false;
   }
   
-- 
2.43.0


From faaf1c23d37ee317bed39aeecbe9fedbe20c527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 06/19] fix: parties refuse messages that carry no data

The data pointer was used unchecked: an authorised message without data
crashed the receiver, or was stored and crashed a later computation.
---
 src/libeopsi/eopsiclient.cpp | 4 ++++
 src/libeopsi/eopsiserver.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 38ef866..a38d394 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -81,6 +81,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
     throw ProtocolException("Party \"" + msg->getPartyId() + "\" is not authorised by " + this->getId() + ".");
   }
   
+  if (msg->getData() == nullptr) {
+    throw ProtocolException("Messages without data are not allowed.");
+  }
+  
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 3ff7d0a..bd10f7c 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -37,6 +37,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
     throw ProtocolException("Party \"" + msg->getPartyId() + "\" is not authorised by " + this->getId() + ".");
   }
   
+  if (msg->getData() == nullptr) {
+    throw ProtocolException("Messages without data are not allowed.");
+  }
+  
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
-- 
2.43.0


From a7f7e99d1a0d75189f7be1cf2997d7162b498b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 07/19] fix: the server refuses computations it can not perform

A computation request naming an unknown partner, or involving a party which
had not outsourced any data, dereferenced a null pointer.
---
 src/libeopsi/eopsiserver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index bd10f7c..a219720 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -57,6 +57,9 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
       partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      if (getPartyById(partnerId) == nullptr) {
+        throw ProtocolException("Party \"" + partnerId + "\" is unknown to " + this->getId() + ".");
+      }
       
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
@@ -143,6 +146,10 @@ NTL::vec_ZZ_p * EOPSIServer::intersectionOutput(const std::string idA, const std
   NTL::vec_ZZ_p* dataB = nullptr;
   NTL::ZZ zzTmpKey;
   
+  if (this->storedData.count(idA) == 0 || this->storedData.count(idB) == 0) {
+    throw ProtocolException("Data of both parties must be outsourced before any computation.");
+  }
+  
   msgA = this->storedData[idA];
   msgB = this->storedData[idB];
   dataA = (NTL::vec_ZZ_p *) msgA->getData();
-- 
2.43.0


From b2161ac97c2e3d9e715125c4e8d8c4f7dce8c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 08/19] fix: the hash table counts its elements and never
 overfills a bucket

size() was always 0, and addToBucket() (and add() without a hash algorithm)
ignored the maximum load of the bucket.
---
 src/libeopsi/hashbuckets.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 2acac0a..a154b1d 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -127,12 +127,6 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
     index = this->hashStrInt->rem(this->k);
 //     std::cerr << element << " hashed to "<< *this->hashStrInt << " mod " << this->k << " = " << index << std::endl;
-    
-    if (this->buckets[index].size() == this->maxLoad) {
-      std::stringstream msg;
-      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
-      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
-    }
   } else {
     index = 0;
     std::cerr << "HashBuckets<T>::add()" << ". Element index completely invented (you did not set a hash algorithm)." << std::endl;
@@ -140,14 +134,20 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
-    this->buckets[index].push_back(element);
+    this->addToBucket(element, index);
 }
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::addToBucket(const T& element, const size_t i) {
   size_t index = i;
   if (index < this->k) {
+    if (this->buckets[index].size() >= this->maxLoad) {
+      std::stringstream msg;
+      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
+      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
+    }
     this->buckets[index].push_back(element);
+    this->n++;
   } else {
     throw OutOfBoundException("HashBuckets<T>::addToBucket(). Index out of bound.", OutOfBoundException::FATAL);
   }
-- 
2.43.0


From 1c46a906f884a17dfb442806f1d9ed05d6487703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 09/19] fix: the variance of the bucket sizes keeps the
 fractional deviations

The distance from the average was truncated to an integer before squaring.
---
 src/libeopsi/hashbuckets.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index a154b1d..4a71eea 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -182,8 +182,8 @@ template <typename T> size_t HashBuckets<T>::getMaxLoad() const {
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::printStats(bool full) const {
-  size_t minSize, minBucket, maxSize, maxBucket, total, diff, nshow;
-  double avgSize, varSize;
+  size_t minSize, minBucket, maxSize, maxBucket, total, nshow;
+  double avgSize, varSize, diff;
   
   // Integer stuff
   total = minSize = maxSize = this->buckets[0].size();
-- 
2.43.0


From d8d035a9a1b41c740761cceb7f8b7805c2488b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 10/19] fix: byte size, bytes and low bits of StrInt follow its
 value

getByteSize() counted bits, so toBytes() exited for every number above 1 (and
could not allocate its result); lsb() looked at a scratch number modulo
2^64 - 1; setting an empty string kept a stale number.
---
 src/libeopsi/strint.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e3c2761..ceba1ad 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -103,7 +103,11 @@ void StrInt::set(const byte *n, const size_t len) {
   }
   
   // Save to z
-  mpz_set(z, b[0]);
+  if (dim > 0) {
+    mpz_set(z, b[0]);
+  } else {
+    mpz_set_ui(z, 0);
+  }
 }
 //-----------------------------------------------------------------------------
 
@@ -113,7 +117,7 @@ unsigned long StrInt::rem(const unsigned long divisor) const {
 //-----------------------------------------------------------------------------
 
 unsigned long StrInt::lsb() const {
-  return mpz_fdiv_ui(b[0], (unsigned long) (-1L));
+  return mpz_get_ui(z);
 }
 //-----------------------------------------------------------------------------
 
@@ -140,7 +144,9 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   const int BIG_ENDIANNESS = 1;
   const size_t LEN = this->getByteSize();
   
-  if ((barr != NULL) && (bytelen != NULL) && (*bytelen != LEN)) {
+  size_t count;
+  
+  if ((barr == NULL) || (bytelen == NULL) || (*bytelen < LEN)) {
     try {
       barr = new byte[LEN];
     } catch (std::bad_alloc&) {
@@ -148,29 +154,31 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
       exit(2);
     }
   }
-  mpz_export((void *) barr, bytelen, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
+  mpz_export((void *) barr, &count, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
   
   /*
    * If this->z is zero then the count returned will be zero and nothing 
-   * written to barr. If barr is NULL in this case, no block is allocated, 
-   * just NULL is returned. 
+   * written to barr.
    */
-  if (*bytelen == 0 && LEN == 1) {
+  if (count == 0 && LEN == 1) {
     barr[0] = '\0';
-    *bytelen = 1;
+    count = 1;
   }
   
-  if (*bytelen != LEN) {
+  if (count != LEN) {
     std::cerr << "toBytes(). Something unexpected happened in conversion." << std::endl;
     exit(2);
   }
+  if (bytelen != NULL) {
+    *bytelen = count;
+  }
   
   return barr;
 }
 //-----------------------------------------------------------------------------
 
 size_t StrInt::getByteSize() const {
-  return (mpz_sizeinbase(this->z, 2) + sizeof(byte) - 1)/sizeof(byte);
+  return (mpz_sizeinbase(this->z, 2) + 8*sizeof(byte) - 1)/(8*sizeof(byte));
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 97217421e4dafb62cbf251c4a8a86d4ed2b0ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 11/19] fix: names of the SHA algorithms

The flavour was added to the string literal as an offset, past its end; SHA1
of integers modulo p was named SHA0.
---
 src/libeopsi/sha.hpp    | 2 +-
 src/libeopsi/shazzp.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index f2c0fc8..7c7ecc2 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -99,7 +99,7 @@ public:
   }
   
   virtual std::string name() const {
-    return "SHA" + this->flavour;
+    return this->flavour == SHA256_FLAVOUR ? "SHA256" : "SHA1";
   }
 };
 //-----------------------------------------------------------------------------
diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index 5e1915c..b689f34 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -31,7 +31,7 @@ byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
 
 std::string SHAZZp::name() const {
   std::ostringstream sstr;
-  sstr << "SHA" << (this->flavour) << " for integers modulo p";
+  sstr << SHA<NTL::ZZ_p>::name() << " for integers modulo p";
   return sstr.str();
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 52c0b9acd44507dc76c275683f843503f038d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 12/19] fix: statistics of the benchmark with pauses

The statistics including pauses always gave up (empty counting range) and the
average ignored the pauses it should have included; the variance without
pauses was divided by the number of all the steps; benchmark() read before the
first time when only one had been taken.
---
 src/libeopsi/simplebm.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 370c493..fea379d 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -83,7 +83,7 @@ std::chrono::microseconds SimpleBenchmark::minOrMax(const bool giveMax, const bo
   
   min = max = currentInterval = ZEROMS;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "minOrMax(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -209,7 +209,7 @@ bool SimpleBenchmark::isStopped() const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::benchmark(const size_t cursor) const {
-  if (cursor >= this->times.size()) {
+  if (cursor >= this->times.size() || this->times.size() < 2) {
     return SimpleBenchmark::ZEROMS;
   }
   
@@ -252,14 +252,14 @@ std::chrono::microseconds SimpleBenchmark::cumulativeBenchmark(const std::string
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::average(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "average(). Not enough points to average." << std::endl;
     return 0.;
   }
   if (noPauses) {
     return this->cumulativeBenchmark(false).count() / (double) this->countNotPausedTimes(1, this->times.size());
   } else {
-    return this->cumulativeBenchmark().count() / (double) (this->times.size() - 1);
+    return this->cumulativeBenchmark((size_t) 0, false).count() / (double) (this->times.size() - 1);
   }
 }
 //-----------------------------------------------------------------------------
@@ -269,16 +269,16 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   size_t n;
   unsigned long x;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "variance(). Not enough points to compute variance." << std::endl;
     return 0.;
   }
   
   avg = this->average(noPauses);
-  n = this->times.size() - 1;
+  n = noPauses ? this->countNotPausedTimes(1, this->times.size()) : this->times.size() - 1;
   var = 0.;
   for (size_t i = 1; i < this->times.size(); i++) {
-    if (noPauses && !this->pauses[i]) {
+    if (!noPauses || !this->pauses[i]) {
       x = std::chrono::duration_cast<std::chrono::microseconds>(this->times[i] - this->times[i - 1]).count();
       diff = x > avg ? x - avg : avg - x;
       var += diff/n*diff;
@@ -290,7 +290,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::standardDeviation(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "standardDeviation(). Not enough points to compute standard deviation." << std::endl;
     return 0.;
   }
@@ -300,7 +300,7 @@ double SimpleBenchmark::standardDeviation(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "max(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -310,7 +310,7 @@ std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::min(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "min(). No intervals taken." << std::endl;
     return ZEROMS;
   }
-- 
2.43.0


From b461046b64802b763859fa6b146126833ae9c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 13/19] fix: factors never outlive the polynomials they belong
 to

Looking for an intersection after interpolate() with the same number of
polynomials dereferenced a null pointer, and after interpolate() with another
number it read stale factors past their end.
---
 src/libeopsi/zzppoly.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index af57719..0c774ef 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -76,6 +76,12 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
     }
   }
   
+  // Factors of the previous polynomials are no longer valid
+  if (this->factorPairs != nullptr) {
+    delete [] this->factorPairs;
+    this->factorPairs = nullptr;
+  }
+  
   this->n = n;
   for (size_t j = 0; j < n; j++) {
 //     std::cout << "\t------------" << std::endl;
@@ -178,7 +184,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
       break;
   }
   
-  if (this->n != n) {
+  if (this->n != n || this->factorPairs == nullptr) {
     try {
       if (this->polynomials != nullptr) {
         delete [] this->polynomials;
-- 
2.43.0


From 08df486aaab8024e30459371305e02072f0e48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 14/19] fix: generators can be copied

ZZpPRF copies the generator it is given, but the copy shared the buffers and
the hash transformation of the original, which were then freed twice.
---
 src/libeopsi/sha.hpp   | 13 +++++++++++++
 src/libeopsi/zzprf.cpp | 17 +++++++++++++++++
 src/libeopsi/zzprf.h   |  2 ++
 3 files changed, 32 insertions(+)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index 7c7ecc2..0114bab 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -78,6 +78,19 @@ public:
     this->setFlavour(flavour);
   }
   
+  SHA(const SHA& other) : HashAlgorithm<T>() {
+    this->sha = nullptr;
+    this->lastHash = nullptr;
+    this->setFlavour(other.flavour);
+  }
+  
+  SHA& operator=(const SHA& other) {
+    if (this != &other) {
+      this->setFlavour(other.flavour);
+    }
+    return *this;
+  }
+  
   ~SHA() {
     if (this->sha != nullptr) {
       delete this->sha;
diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index a87346c..a219f92 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -19,6 +19,23 @@ ZZPRF::ZZPRF() : PseudoRandom() {
 }
 //-----------------------------------------------------------------------------
 
+ZZPRF::ZZPRF(const ZZPRF& other) : PseudoRandom(other), hashAlgorithm(other.hashAlgorithm) {
+  // Buffers are not shared
+  hashInputSize = 0;
+  genLength = 0;
+  gen = nullptr;
+  hashInput = nullptr;
+}
+//-----------------------------------------------------------------------------
+
+ZZPRF& ZZPRF::operator=(const ZZPRF& other) {
+  // Buffers are not shared
+  PseudoRandom::operator=(other);
+  hashAlgorithm = other.hashAlgorithm;
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZPRF::~ZZPRF() {
   if (gen != nullptr) {
     delete [] gen;
diff --git a/src/libeopsi/zzprf.h b/src/libeopsi/zzprf.h
index 46629cb..30a7e3e 100644
--- a/src/libeopsi/zzprf.h
+++ b/src/libeopsi/zzprf.h
@@ -32,6 +32,8 @@ protected:
   
 public:
   ZZPRF();
+  ZZPRF(const ZZPRF& other);
+  ZZPRF& operator=(const ZZPRF& other);
   virtual ~ZZPRF();
   
   virtual NTL::ZZ generate(const NTL::ZZ seed, const size_t index, const size_t bits = 0);
-- 
2.43.0


From cbb8bab0d666a7a5f84c0eaba07edfbe2383f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 15/19] fix: block count of sizes near the largest machine word

---
 src/libeopsi/ntlmiss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/ntlmiss.cpp b/src/libeopsi/ntlmiss.cpp
index 80a29ce..28f7bbd 100644
--- a/src/libeopsi/ntlmiss.cpp
+++ b/src/libeopsi/ntlmiss.cpp
@@ -26,7 +26,7 @@ namespace NTL {
   //---------------------------------------------------------------------------
 
   unsigned long blocks(const unsigned long bits, const unsigned long bitsPerBlock) {
-    return (bits + bitsPerBlock - 1)/bitsPerBlock;
+    return bits/bitsPerBlock + (bits % bitsPerBlock != 0 ? 1 : 0);
   }
   //---------------------------------------------------------------------------
 
-- 
2.43.0


From 1121d149d5f6d372be6dcc83a4f1902da653d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 16/19] fix: computation requests are read within their length

---
 src/libeopsi/eopsiclient.cpp |  3 ++-
 src/libeopsi/eopsiserver.cpp | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index a38d394..4182132 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <iostream>
+#include <cstring>
 #include <NTL/ZZ_pXFactoring.h>
 #include "eopsiclient.h"
 #include "ntlmiss.h"
@@ -93,7 +94,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.start();
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId.assign((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index a219720..635f5ec 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <iostream>
+#include <cstring>
 #include <NTL/ZZ_pX.h>
 #include "eopsiserver.h"
 //-----------------------------------------------------------------------------
@@ -52,11 +53,16 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId.assign((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
-      partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      if (msg->length() > msgClaimedId.length()) {
+        partnerId.assign(&((char *) msg->getData())[msgClaimedId.length() + 1], strnlen(&((char *) msg->getData())[msgClaimedId.length() + 1], msg->length() - msgClaimedId.length() - 1));
+      }
+      if (msg->length() < msgClaimedId.length() + 1 + partnerId.length() + 1 + NTL::bytes(DEFAULT_KEY_BITSIZE)) {
+        throw ProtocolException("Computation request too short");
+      }
       if (getPartyById(partnerId) == nullptr) {
         throw ProtocolException("Party \"" + partnerId + "\" is unknown to " + this->getId() + ".");
       }
-- 
2.43.0


From 27eaf49eca086370a668ae5e0172ecffb4a79b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 17/19] fix: the cloud keeps the outsourced message, not a
 pointer to the caller's one

---
 src/libeopsi/eopsiserver.cpp | 6 +++---
 src/libeopsi/eopsiserver.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 635f5ec..1cb331d 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -89,7 +89,7 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       if (sender->getType() == EOPSI_PARTY_SERVER) {
         throw ProtocolException("Outsourcing data between servers is not (yet) supported");
       }
-      this->storedData[sender->getId()] = msg;
+      this->storedData[sender->getId()] = *msg;
       std::cout << id << ". Data from " << sender->getId() << " stored (size " << msg->length() << ")." << std::endl;
       
       // [[TODO: REM debug]]
@@ -156,8 +156,8 @@ NTL::vec_ZZ_p * EOPSIServer::intersectionOutput(const std::string idA, const std
     throw ProtocolException("Data of both parties must be outsourced before any computation.");
   }
   
-  msgA = this->storedData[idA];
-  msgB = this->storedData[idB];
+  msgA = &this->storedData[idA];
+  msgB = &this->storedData[idB];
   dataA = (NTL::vec_ZZ_p *) msgA->getData();
   dataB = (NTL::vec_ZZ_p *) msgB->getData();
   
diff --git a/src/libeopsi/eopsiserver.h b/src/libeopsi/eopsiserver.h
index 7a55f9f..4cbbc65 100644
--- a/src/libeopsi/eopsiserver.h
+++ b/src/libeopsi/eopsiserver.h
@@ -18,7 +18,7 @@ class EOPSIClient;
 
 class EOPSIServer : public EOPSIParty {
 protected:
-  std::map<std::string, EOPSIMessage*> storedData;
+  std::map<std::string, EOPSIMessage> storedData;
   EOPSIMessage msgToClient;
   
   virtual NTL::vec_ZZ_p * intersectionOutput(const std::string id, const std::string idOther, const NTL::ZZ tmpKey);
-- 
2.43.0


From 9776c3b585a3b67ea0be40c06b3df5ceea8ec623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 18/19] fix: a client without a set refuses the halves of a
 computation

---
 src/libeopsi/eopsiclient.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 4182132..0ca4ad3 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -181,6 +181,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       break;
       
     case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
+      if (blindedData == nullptr) {
+        throw ProtocolException("No data has been set: the output of a computation can not be used");
+      }
       bm.start();
       t = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
@@ -199,6 +202,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       break;
       
     case EOPSI_MESSAGE_POLYNOMIAL:
+      if (blindedData == nullptr) {
+        throw ProtocolException("No data has been set: the output of a computation can not be used");
+      }
       bm.start();
       q = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
-- 
2.43.0


From 1b10c76e3ee7dc0c23c6b677647849d78dae68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 19/19] fix: parameters set after construction count like those
 given to it

---
 src/libeopsi/eopsiclient.cpp | 6 +++++-
 src/libeopsi/eopsiparty.cpp  | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 0ca4ad3..65bf722 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -386,6 +386,9 @@ void EOPSIClient::blind(unsigned int nThreads) {
   std::cout << ".";
   std::cout.flush();
   
+  // The field may have been set after construction
+  this->zzpprf->setModulo(this->fieldsize);
+  
   // Fill the hash table with random elements
   this->hashBuckets->conceal(*zzpprf);
   
@@ -485,6 +488,7 @@ NTL::vec_ZZ_p * EOPSIClient::delegationOutput(const NTL::ZZ secretOtherParty, co
     exit(2);
   }
   
+  this->zzpprf->setModulo(this->fieldsize);
   conv(zzpSeed, this->secret);
   conv(zzpSeedOther, secretOtherParty);
   index = 0;
@@ -537,7 +541,7 @@ bool EOPSIClient::intersect(const bool showStats) {
   }
   
   // Not secret unknowns
-  unknowns = this->getUnknowns();
+  unknowns = this->getUnknowns(this->degree);
   
 //   std::cout << "length: " << this->length << std::endl;
     
diff --git a/src/libeopsi/eopsiparty.cpp b/src/libeopsi/eopsiparty.cpp
index 5087248..9ec78bb 100644
--- a/src/libeopsi/eopsiparty.cpp
+++ b/src/libeopsi/eopsiparty.cpp
@@ -147,6 +147,7 @@ std::string EOPSIParty::getId() const {
 void EOPSIParty::setFieldsize(const NTL::ZZ fieldsize) {
   this->fieldsize = fieldsize;
   this->fieldbitsize = NTL::NumBits(this->fieldsize);
+  this->unknowns.kill(); // They depend on the field
 }
 //-----------------------------------------------------------------------------
 
@@ -157,6 +158,7 @@ NTL::ZZ EOPSIParty::getFieldsize() const {
 
 void EOPSIParty::setDegree(const size_t degree) {
   this->degree = degree;
+  this->unknowns.kill(); // There are as many as the degree
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0

