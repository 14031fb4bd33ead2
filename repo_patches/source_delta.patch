From d7240952a53e9380f94c76e6907464f8ad1b0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 01/86] fix: write the timeline of composite effects instead of
 recursing forever

---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..f54181d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From e0de0d675d49ec95bab19aae3df51615f99af58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 02/86] fix: a channel without reference device has none after
 a binary file round trip

---
 source/IOHaptics/src/IOBinary.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index f54181d..7611320 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -596,8 +596,11 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
-    t.setReferenceDeviceId(
-        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits));
+    auto referenceDeviceId =
+        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
+    if (referenceDeviceId != REFDEV_MAX_ID) {
+      t.setReferenceDeviceId(referenceDeviceId);
+    }
     t.setGain(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_GAIN>(file, -MAX_FLOAT,
                                                                            MAX_FLOAT, unusedBits));
     t.setMixingWeight(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_MIXING_WEIGHT>(
-- 
2.43.0


From 080820480cb12fdb60ce71e643f49378b4e678d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 03/86] fix: read 16-bit channel ids of binary files as
 unsigned

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 7611320..696758c 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -593,7 +593,7 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
   // for each channel
   for (unsigned short i = 0; i < channelCount; i++) {
     types::Channel t;
-    t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
+    t.setId(IOBinaryPrimitives::readNBits<unsigned short, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
     auto referenceDeviceId =
-- 
2.43.0


From a3529830f616a9116409f6ee3de10ca58d6f778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 04/86] fix: quantise to the nearest code so that repeated save
 and load does not drift

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..822d2f0 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -114,7 +114,7 @@ public:
     auto normalizedValue = (value - minValue) / (maxValue - minValue);
     normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>((double)(normalizedValue)*maxIntValue);
+    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
-- 
2.43.0


From 297a891455243b242d9ad3e332e63727749dd04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 05/86] fix: wavelet blocks of binary files follow each other
 by one block length

---
 source/IOHaptics/src/IOBinaryBands.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..fd7d50a 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -118,8 +118,8 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      // the block length is expressed in ticks already
+      position = effectIndex * band.getBlockLengthOrDefault();
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From 7a2be5f2162bb93534a5b3c990fa240088128d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 06/86] fix: write no more characters of a string than its
 length field announces

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From de4c5e053893f57cbaaec86e2604416f9c86ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 07/86] fix: replacing the metadata of a perception takes its
 avatar, not its id, as avatar

---
 source/Types/src/Haptics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..bb79cdb 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,7 +75,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
-- 
2.43.0


From 0e061d249baff01bb7d24e26a67e7952575b61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 08/86] fix: replacing the metadata of a perception, channel or
 band takes its priority

---
 source/Types/src/Channel.cpp    | 3 +++
 source/Types/src/Haptics.cpp    | 3 +++
 source/Types/src/Perception.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..db69f3e 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -96,6 +96,9 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
     return false;
   }
   bands[index].setBandType(newBand.getBandType());
+  if (newBand.getPriority().has_value()) {
+    bands[index].setPriority(newBand.getPriority().value());
+  }
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
   }
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index bb79cdb..b389cc3 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -78,6 +78,9 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
+  if (newPerception.getPriority().has_value()) {
+    perceptions[index].setPriority(newPerception.getPriority().value());
+  }
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..a6accae 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -125,6 +125,9 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   channels[index].setId(newChannel.getId());
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
+  if (newChannel.getPriority().has_value()) {
+    channels[index].setPriority(newChannel.getPriority().value());
+  }
   channels[index].setGain(newChannel.getGain());
   channels[index].setMixingWeight(newChannel.getMixingWeight());
   channels[index].setBodyPartMask(newChannel.getBodyPartMask());
-- 
2.43.0


From b6b2bc63913dc9fe876b4400d67b8f9e3188718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 09/86] fix: refactoring gives library effects an identifier
 that is not taken

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index a6accae..37b5de4 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -345,6 +345,9 @@ auto Perception::refactorEffects() -> void {
         if (sameEffects.size() > 1) {
           Effect basisEffect(refEffect);
           auto newId = static_cast<int>(getEffectLibrarySize());
+          while (getEffectById(newId).has_value()) {
+            newId++;
+          }
           basisEffect.setId(newId);
           basisEffect.setPosition(0);
           for (const auto &t : sameEffects) {
-- 
2.43.0


From bc02160f4b7db54aa26ee973a68575ad23ec2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 10/86] fix: effects with different semantics are not
 equivalent

---
 source/Types/src/Effect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..a29d02c 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -163,7 +163,8 @@ auto Effect::addKeyframe(std::optional<int> position, std::optional<double> ampl
 
 auto Effect::isEquivalent(Effect &effect) -> bool {
   if (effectType != EffectType::Basis || effect.effectType != EffectType::Basis ||
-      phase != effect.getPhase() || baseSignal != effect.getBaseSignal()) {
+      phase != effect.getPhase() || baseSignal != effect.getBaseSignal() ||
+      semantic != effect.getSemantic()) {
     return false;
   }
 
-- 
2.43.0


From 3e9a42e0d8fd42b8a7a8439c9b004ca64c00adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 11/86] fix: refactoring does not mistake wavelet blocks for
 empty effects

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 37b5de4..d1b40df 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -375,6 +375,9 @@ auto Perception::searchForEquivalentEffects(Effect &effect, int startingChannel)
     auto numBands2 = static_cast<int>(channel2.getBandsSize());
     for (int m = 0; m < numBands2; m++) {
       auto band2 = channel2.getBandAt(m);
+      if (band2.getBandType() == BandType::WaveletWave) {
+        continue;
+      }
       auto numEffects2 = static_cast<int>(band2.getEffectsSize());
       for (int n = 0; n < numEffects2; n++) {
         if (effect.isEquivalent(band2.getEffectAt(n))) {
-- 
2.43.0


From 350f6e64739c40767e51ca6892e2d868c6555337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 12/86] fix: linearising resolves the references of composite
 effects before the library is dropped

---
 source/Types/include/Perception.h |  2 ++
 source/Types/src/Perception.cpp   | 32 +++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..94c476d 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -158,6 +158,8 @@ public:
   auto getEffectById(int id) -> std::optional<Effect>;
 
 private:
+  auto resolveReferences(Effect effect, std::vector<int> resolvedIds) -> Effect;
+
   static constexpr int8_t DEFAULT_UNIT_EXPONENT = -3;
   static constexpr int8_t DEFAULT_PERCEPTION_UNIT_EXPONENT = 0;
   inline static const std::string DEFAULT_SEMANTIC_SCHEME =
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index d1b40df..669eb63 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Perception.h>
+#include <algorithm>
 
 namespace haptics::types {
 
@@ -305,6 +306,25 @@ auto Perception::getEffectById(int id) -> std::optional<Effect> {
   return {};
 }
 
+auto Perception::resolveReferences(Effect effect, std::vector<int> resolvedIds) -> Effect {
+  if (effect.getEffectType() == EffectType::Reference) {
+    auto id = effect.getId();
+    auto refEffect = getEffectById(id);
+    if (!refEffect.has_value() ||
+        std::find(resolvedIds.begin(), resolvedIds.end(), id) != resolvedIds.end()) {
+      return effect;
+    }
+    resolvedIds.push_back(id);
+    refEffect->setPosition(effect.getPosition());
+    refEffect->setId(-1);
+    return resolveReferences(refEffect.value(), resolvedIds);
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    effect.getTimelineEffectAt(i) = resolveReferences(effect.getTimelineEffectAt(i), resolvedIds);
+  }
+  return effect;
+}
+
 auto Perception::linearizeLibrary() -> void {
   for (int i = 0; i < static_cast<int>(getChannelsSize()); i++) {
     auto channel = getChannelAt(i);
@@ -313,16 +333,8 @@ auto Perception::linearizeLibrary() -> void {
       auto band = channel.getBandAt(j);
       auto numEffects = static_cast<int>(band.getEffectsSize());
       for (int k = 0; k < numEffects; k++) {
-        auto effect = band.getEffectAt(k);
-        if (effect.getEffectType() == EffectType::Reference) {
-          auto refEffect = getEffectById(effect.getId());
-          if (refEffect.has_value()) {
-            Effect basisEffect(refEffect.value());
-            basisEffect.setPosition(effect.getPosition());
-            basisEffect.setId(-1);
-            getChannelAt(i).getBandAt(j).replaceEffectAt(k, basisEffect);
-          }
-        }
+        auto effect = resolveReferences(band.getEffectAt(k), {});
+        getChannelAt(i).getBandAt(j).replaceEffectAt(k, effect);
       }
     }
   }
-- 
2.43.0


From b2a608cadd3932be1f3f3b767b60661f3b3ff2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 13/86] fix: the length of an effect without positioned
 keyframes is zero

---
 source/Types/src/Effect.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index a29d02c..2bd7c72 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -409,6 +409,10 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  if (lastKeyframe == keyframes.rend()) {
+    return 0;
+  }
+
   switch (bandType) {
   case types::BandType::Transient:
     return lastKeyframe->getRelativePosition().has_value()
-- 
2.43.0


From 1bcae0dbd2fd00e4bcdb368a659259891543cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 14/86] fix: read the packets in the last bytes of a unit

---
 source/IOHaptics/src/IOStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..02c23e7 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -254,8 +254,9 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
   index += UNIT_RESERVED;
 
+  const int unitEnd = index + unitLength;
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
-  while (index < unitLength) {
+  while (index < unitEnd) {
     if (!readMIHSPacket(packets, sreader, crc)) {
       return EXIT_FAILURE;
     }
-- 
2.43.0


From d478ea54d67db0ffe98093aeb87927b70b617039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 15/86] fix: report unreadable streams, skip dependent packets
 while waiting for synchronisation

---
 source/IOHaptics/src/IOStream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 02c23e7..8660926 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -62,13 +62,15 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
   int index = 0;
   for (auto &packet : bitstream) {
     if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     if (crc.nbPackets != 0) {
       if (!checkCRC(bitstream, crc)) {
@@ -258,7 +260,7 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   while (index < unitEnd) {
     if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
@@ -2204,7 +2206,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // not decodable yet: skipped
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From 4e7e8ab8aa7dde30cd142af6ce911583a383f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 16/86] fix: remove every empty component before streaming

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8660926..e6be53a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -626,14 +626,14 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  // From the last to the first, as removing an element moves the ones that follow it
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
-      std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From f929c4fb0ebd039d98fab53e00067a44b17dcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 17/86] fix: no sync is skipped when the initialization is
 repeated

---
 source/IOHaptics/src/IOStream.cpp | 48 +++++++++++++------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index e6be53a..b1dd6a5 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -142,7 +142,20 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   bitstream.push_back(initUnit);
   types::Sync nextSync;
   int syncIdx = 0;
-  getNextSync(haptic, nextSync, syncIdx);
+  bool syncLeft = getNextSync(haptic, nextSync, syncIdx);
+  // Repeat the initialization at the first unit boundary that is not before a sync
+  auto writeSyncUnit = [&]() {
+    bool due = false;
+    while (syncLeft && nextSync.getTimestamp() <= swriter.time) {
+      due = due || nextSync.getTimestamp() > 0;
+      syncLeft = getNextSync(haptic, nextSync, syncIdx);
+    }
+    if (due) {
+      std::vector<bool> syncUnit = std::vector<bool>();
+      writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
+      bitstream.push_back(syncUnit);
+    }
+  };
 
   std::vector<std::vector<bool>> dataPackets = std::vector<std::vector<bool>>();
   writeMIHSPacket(MIHSPacketType::Data, swriter, dataPackets);
@@ -156,6 +169,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
       writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
       if (silentUnit.size() > UNIT_TYPE) {
         bitstream.push_back(silentUnit);
+        writeSyncUnit();
       }
       first = false;
     }
@@ -173,23 +187,13 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
         std::vector<bool> temporalUnit = std::vector<bool>();
         writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
         bitstream.push_back(temporalUnit);
-        if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-          std::vector<bool> syncUnit = std::vector<bool>();
-          writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-          getNextSync(haptic, nextSync, syncIdx);
-          bitstream.push_back(syncUnit);
-        }
+        writeSyncUnit();
         if (swriter.time != packetTS) {
           std::vector<std::vector<bool>> silentPackets{bufUnit[bufUnit.size() - 1], packet};
           std::vector<bool> silentUnit = std::vector<bool>();
           if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
             bitstream.push_back(silentUnit);
-            if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-              std::vector<bool> syncUnit = std::vector<bool>();
-              writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-              getNextSync(haptic, nextSync, syncIdx);
-              bitstream.push_back(syncUnit);
-            }
+            writeSyncUnit();
           }
         }
         bufUnit.clear();
@@ -202,12 +206,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
     writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
     bitstream.push_back(temporalUnit);
     bufUnit.clear();
-    if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-      std::vector<bool> syncUnit = std::vector<bool>();
-      writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-      getNextSync(haptic, nextSync, syncIdx);
-      bitstream.push_back(syncUnit);
-    }
+    writeSyncUnit();
   }
   silentUnitSyncFlag(bitstream);
   return true;
@@ -2806,17 +2805,10 @@ auto IOStream::padToByteBoundary(std::vector<bool> &bitstream) -> void {
 }
 
 auto IOStream::getNextSync(types::Haptics &haptic, types::Sync &sync, int &idx) -> bool {
-  if (idx >= static_cast<int>(haptic.getSyncsSize()) - 1) {
-    idx = -1;
+  if (idx >= static_cast<int>(haptic.getSyncsSize())) {
     return false;
   }
-  if (idx == 0 && haptic.getSyncsAt(0).getTimestamp() == 0) {
-    if (haptic.getSyncsSize() == 1) {
-      idx = -1;
-      return false;
-    }
-  }
-  sync = haptic.getSyncsAt(++idx);
+  sync = haptic.getSyncsAt(idx++);
   return true;
 }
 } // namespace haptics::io
\ No newline at end of file
-- 
2.43.0


From 11cd2b117fe94af64dc825fb3b049b171380430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 18/86] fix: a repeated initialization does not repeat the
 avatars

---
 source/IOHaptics/src/IOStream.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b1dd6a5..22b9106 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -941,7 +941,17 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
     return false;
   }
   for (auto avatar : avatarList) {
-    haptic.addAvatar(avatar);
+    bool known = false; // the initialization may be repeated
+    for (auto i = 0; i < static_cast<int>(haptic.getAvatarsSize()); i++) {
+      if (haptic.getAvatarAt(i).getId() == avatar.getId()) {
+        haptic.getAvatarAt(i) = avatar;
+        known = true;
+        break;
+      }
+    }
+    if (!known) {
+      haptic.addAvatar(avatar);
+    }
   }
   return true;
 }
-- 
2.43.0


From 6335c846c330dc5fe3c6b509ebd949ed24467749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 19/86] fix: look up the channel of a stream packet in its own
 perception

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..144e679 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -260,7 +260,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInPerception(types::Perception &perception, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 22b9106..9303c17 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -707,7 +707,8 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex =
+        searchChannelInPerception(sreader.haptic.getPerceptionAt(perceIndex), sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -721,7 +722,8 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex =
+        searchChannelInPerception(sreader.haptic.getPerceptionAt(perceIndex), sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1819,7 +1821,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInPerception(sreader.perception, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2230,7 +2232,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInPerception(sreader.perception, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2641,13 +2643,10 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInPerception(types::Perception &perception, int id) -> int {
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From f84563e1d1fb479f44e585a36735de35874f6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 20/86] fix: stream packets hold everything that starts in
 their time range

---
 source/IOHaptics/src/IOStream.cpp | 33 +++++++++++--------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 9303c17..b305730 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1987,9 +1987,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  // Exit this function only when 1 packet is full or last keyframes of the band is reached
+  // Exit this function only when 1 packet is full: it holds all that starts within its duration.
+  // Returns true when nothing of the band is left for the following packets
+  bool last = true;
+  swriter.auType = AUType::RAU;
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
-    bool endEffect = false;
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
       int nextId = 0;
@@ -2004,40 +2006,29 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
     if (effect.getEffectType() == types::EffectType::Basis) {
       int bufKFCount = 0;
       bool isRAU = true;
-      bool endPacket = false;
-      if (writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
-        endEffect = true;
-      } else {
-        endPacket = true;
+      if (!writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
+        last = false;
       }
       if (bufKFCount > 0) {
         swriter.keyframesCount.push_back(bufKFCount);
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
-      }
-      if (endEffect && i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
-      }
-      if (endPacket) {
-        return false;
+        if (!isRAU) {
+          swriter.auType = AUType::DAU;
+        }
       }
     } else if (effect.getEffectType() == types::EffectType::Reference) {
       if (effect.getPosition() >= swriter.time &&
           effect.getPosition() < swriter.time + static_cast<int>(swriter.packetDuration)) {
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
-        return false;
-      }
-      if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
+      } else if (effect.getPosition() >= swriter.time + static_cast<int>(swriter.packetDuration)) {
+        last = false;
       }
     }
   }
-  return true;
+  return last;
 }
 
 auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
-- 
2.43.0


From a0ef8476265492d2f399e4e1cf776fa2b8dabd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 21/86] fix: effects of a streamed composite start relative to
 it

---
 source/IOHaptics/src/IOStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b305730..3ed0998 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1916,6 +1916,7 @@ auto IOStream::linearizeTimelineEffect(types::Effect &effect, std::vector<types:
     -> void {
   for (int j = 0; j < static_cast<int>(effect.getTimelineSize()); j++) {
     auto effectTimeline = effect.getTimelineEffectAt(j);
+    effectTimeline.setPosition(effectTimeline.getPosition() + effect.getPosition());
     if (effectTimeline.getEffectType() == types::EffectType::Composite) {
       linearizeTimelineEffect(effectTimeline, effects);
     } else {
-- 
2.43.0


From 997bb96410cc43a1a0d23ff9812be38f40508ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 22/86] fix: stream every wavelet block in the packet of its
 time range

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 25 ++++++++-----------------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 144e679..2f1d4f4 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -203,7 +203,7 @@ private:
                                         std::vector<bool> &packetBits, StreamWriter &swriter)
       -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length, unsigned int timescale) -> bool;
+                                types::Effect &effect, int &length) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 3ed0998..549b1a2 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1935,12 +1935,13 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
   swriter.time = 0;
   if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     createWaveletPayload(swriter, bufPacketBitstream);
-    for (auto &bufpacket : bufPacketBitstream) {
+    for (auto i = 0; i < static_cast<int>(bufPacketBitstream.size()); i++) {
+      int position = swriter.bandStream.band.getEffectAt(i).getPosition();
+      swriter.time = position - position % static_cast<int>(swriter.packetDuration);
       swriter.auType = AUType::RAU;
       packetBits = writeEffectHeader(swriter);
-      packetBits = writeWaveletPayloadPacket(bufpacket, packetBits, swriter);
+      packetBits = writeWaveletPayloadPacket(bufPacketBitstream[i], packetBits, swriter);
       bitstreams.push_back(packetBits);
-      swriter.time += static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault());
     }
   } else {
     while (!createPayloadPacket(swriter, bufPacketBitstream)) {
@@ -1971,18 +1972,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
       !swriter.bandStream.band.getBlockLength().has_value()) {
     return false;
   }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     std::vector<bool> bufbitstream = std::vector<bool>();
     types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
     IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
     bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
-    }
   }
   return true;
 }
@@ -2249,8 +2243,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.timescale);
+      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx);
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2395,8 +2388,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
 }
 
 auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length, const unsigned int timescale)
-    -> bool {
+                                 types::Effect &effect, int &length) -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   effect.setId(id);
@@ -2414,8 +2406,7 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  int effectPos = static_cast<int>(timescale) * band.getBlockLength().value() *
-                  static_cast<int>(band.getEffectsSize()) / band.getUpperFrequencyLimit();
+  int effectPos = band.getBlockLength().value() * static_cast<int>(band.getEffectsSize());
   effect.setPosition(effectPos);
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
-- 
2.43.0


From 30bccceb67239e294366ed3a9d42db2eee76574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 23/86] fix: stream spatial bands once, in the packet format
 the reader expects

---
 source/IOHaptics/src/IOStream.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 549b1a2..757cc2f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <limits>
 
 namespace haptics::io {
 
@@ -2146,18 +2147,13 @@ auto IOStream::writePayloadPacket(StreamWriter &swriter,
 
 auto IOStream::writeSpatialData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  swriter.auType = AUType::RAU;
-  swriter.time = 0;
-
-  std::vector<bool> bandBitstream = writeEffectHeader(swriter);
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.bandStream.band.getEffectsSize());
-  std::string fxCountStr = fxCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(fxCountStr, bandBitstream);
-
-  IOBinaryBands::writeBandBody(swriter.bandStream.band, bandBitstream);
-  bitstream.push_back(bandBitstream);
-
-  return true;
+  // Positions are not times: the whole band belongs to the first time range
+  const unsigned int packetDuration = swriter.packetDuration;
+  swriter.packetDuration = std::numeric_limits<int>::max();
+  linearizeTimeline(swriter.bandStream.band);
+  bool success = packetizeBand(swriter, bitstream);
+  swriter.packetDuration = packetDuration;
+  return success;
 }
 auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream) -> bool {
 
@@ -2185,6 +2181,7 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         if (spatial) {
           writeSpatialData(swriter, bandBitstream);
           expBitstream.push_back(bandBitstream);
+          bandBitstream.clear();
         } else {
           linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-- 
2.43.0


From c3142cd1bed3ff2bda2bed54126ca732a0260fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 24/86] fix: stream missing values as zero, as binary files do,
 instead of failing

---
 source/IOHaptics/src/IOStream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 757cc2f..845e177 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -973,7 +973,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
   IOBinaryPrimitives::writeStrBits(avatarTypeStr, bitstream);
 
   if (static_cast<int>(avatar.getType()) == 0) {
-    std::string mesh = avatar.getMesh().value();
+    std::string mesh = avatar.getMesh().value_or("");
     std::bitset<AVATAR_MESH_COUNT> avatarMeshCountBits(mesh.size());
     std::string avatarMeshCountStr = avatarMeshCountBits.to_string();
     IOBinaryPrimitives::writeStrBits(avatarMeshCountStr, bitstream);
@@ -1295,7 +1295,7 @@ auto IOStream::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
     IOBinaryPrimitives::writeStrBits(maskStr, bitstream);
 
     if ((mask & (uint8_t)KeyframeMask::RELATIVE_POSITION) != 0) {
-      std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+      std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
       std::string posStr = posBits.to_string();
       IOBinaryPrimitives::writeStrBits(posStr, bitstream);
     }
@@ -2448,7 +2448,7 @@ auto IOStream::writeEffectBasis(types::Effect effect, StreamWriter &swriter, int
   int tsFX = effect.getPosition();
   for (auto j = 0; j < static_cast<int>(effect.getKeyframesSize()); j++) {
     types::Keyframe kf = effect.getKeyframeAt(j);
-    int currentTime = kf.getRelativePosition().value() + tsFX;
+    int currentTime = kf.getRelativePosition().value_or(0) + tsFX;
     if (currentTime < swriter.time + static_cast<int>(swriter.packetDuration) &&
         currentTime >= swriter.time) {
       if (firstKf) {
@@ -2521,14 +2521,14 @@ auto IOStream::readKeyframe(std::vector<bool> &bitstream, types::Keyframe &keyfr
 auto IOStream::writeTransient(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
 
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
 
-  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value());
+  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value_or(0));
   std::string freqStr = freqBits.to_string();
   IOBinaryPrimitives::writeStrBits(freqStr, bitstream);
   return true;
@@ -2550,9 +2550,9 @@ auto IOStream::readTransient(std::vector<bool> &bitstream, types::Keyframe &keyf
 auto IOStream::writeCurve(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
   return true;
@@ -2579,7 +2579,7 @@ auto IOStream::writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bits
     bufbitstream.insert(bufbitstream.end(), bufBits.begin(), bufBits.end());
     informationMask |= 0b01;
   }
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bufbitstream);
 
-- 
2.43.0


From b47eb766d597136301696bccc46c106168d2dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 25/86] fix: stream no more characters of a string than its
 length field announces

---
 source/IOHaptics/src/IOStream.cpp | 86 ++++---------------------------
 1 file changed, 9 insertions(+), 77 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 845e177..a710bda 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -859,45 +859,16 @@ auto IOStream::readInitializationTiming(StreamReader &sreader, std::vector<bool>
 }
 
 auto IOStream::writeMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool {
-  std::bitset<MDEXP_VERSION> versionCountBits(haptic.getVersion().size());
-  const std::string versionCountStr = versionCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(versionCountStr, bitstream);
-  for (auto c : haptic.getVersion()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getVersion(), bitstream);
 
-  std::bitset<MDEXP_PROFILE_SIZE> profileCountBits(haptic.getProfile().size());
-  const std::string profileCountStr = profileCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(profileCountStr, bitstream);
-  for (auto c : haptic.getProfile()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getProfile(), bitstream);
 
   std::bitset<MDEXP_LEVEL> levelBits(haptic.getLevel());
   std::string levelStr = levelBits.to_string();
   IOBinaryPrimitives::writeStrBits(levelStr, bitstream);
 
-  std::bitset<MDEXP_DATE> dateCountBits(haptic.getDate().size());
-  std::string dateCountStr = dateCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(dateCountStr, bitstream);
-  for (auto c : haptic.getDate()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
-  std::bitset<MDEXP_DESC_SIZE> descSizeBits(haptic.getDescription().length());
-  const std::string descSizeStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(descSizeStr, bitstream);
-
-  for (char &c : haptic.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    const std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getDate(), bitstream);
+  IOBinaryPrimitives::writeString(haptic.getDescription(), bitstream);
 
   std::bitset<MDEXP_PERC_COUNT> perceCountBits(haptic.getPerceptionsSize());
   std::string perceCountStr = perceCountBits.to_string();
@@ -974,15 +945,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
 
   if (static_cast<int>(avatar.getType()) == 0) {
     std::string mesh = avatar.getMesh().value_or("");
-    std::bitset<AVATAR_MESH_COUNT> avatarMeshCountBits(mesh.size());
-    std::string avatarMeshCountStr = avatarMeshCountBits.to_string();
-    IOBinaryPrimitives::writeStrBits(avatarMeshCountStr, bitstream);
-
-    for (char &c : mesh) {
-      std::bitset<BYTE_SIZE> descBits(c);
-      std::string cStr = descBits.to_string();
-      IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-    }
+    IOBinaryPrimitives::writeString(mesh, bitstream);
   }
   return true;
 }
@@ -1014,15 +977,7 @@ auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool>
   std::string percePriorityStr = percePriorityBits.to_string();
   IOBinaryPrimitives::writeStrBits(percePriorityStr, bitstream);
 
-  std::bitset<MDPERCE_DESC_SIZE> descSizeBits(swriter.perception.getDescription().size());
-  std::string descSizeStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(descSizeStr, bitstream);
-
-  for (char &c : swriter.perception.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(swriter.perception.getDescription(), bitstream);
 
   std::bitset<MDPERCE_MODALITY> modalityBits(
       static_cast<int>(swriter.perception.getPerceptionModality()));
@@ -1042,14 +997,7 @@ auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool>
     std::bitset<MDPERCE_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, bitstream);
-    std::bitset<MDPERCE_SCHEME_LENGTH> schemeLengthBits(schemeStr.size());
-    std::string shemeLengthStr = schemeLengthBits.to_string();
-    IOBinaryPrimitives::writeStrBits(shemeLengthStr, bitstream);
-    for (auto c : schemeStr) {
-      std::bitset<MDPERCE_SCHEME_CHAR> cBits(c);
-      const std::string cStr = cBits.to_string();
-      IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-    }
+    IOBinaryPrimitives::writeString(schemeStr, bitstream);
   } else {
     std::bitset<MDPERCE_FLAG_SEMANTIC> flagSemanticBits(0);
     std::string flagSemanticStr = flagSemanticBits.to_string();
@@ -1329,15 +1277,7 @@ auto IOStream::writeReferenceDevice(types::ReferenceDevice &refDevice, std::vect
   std::string idStr = idBits.to_string();
   IOBinaryPrimitives::writeStrBits(idStr, bitstream);
 
-  std::bitset<REFDEV_NAME_LENGTH> nameLengthBits(refDevice.getName().size());
-  std::string nameLengthStr = nameLengthBits.to_string();
-  IOBinaryPrimitives::writeStrBits(nameLengthStr, bitstream);
-
-  for (char &c : refDevice.getName()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(refDevice.getName(), bitstream);
 
   std::bitset<REFDEV_BODY_PART_MASK> bodyPartMaskBits(refDevice.getBodyPartMask().value_or(0));
   std::string bodypartMaskStr = bodyPartMaskBits.to_string();
@@ -1565,15 +1505,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
   std::string priorityStr = priorityBits.to_string();
   IOBinaryPrimitives::writeStrBits(priorityStr, bitstream);
 
-  std::bitset<MDPERCE_DESC_SIZE> descSizeBits(swriter.channel.getDescription().size());
-  valueStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-
-  for (char &c : swriter.channel.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    valueStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(swriter.channel.getDescription(), bitstream);
 
   std::bitset<REFDEV_ID> refDevID(swriter.channel.getReferenceDeviceId().value_or(-1));
   valueStr = refDevID.to_string();
-- 
2.43.0


From 91eac3a8cf2eda8ff42d90815f6920dd16112e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 26/86] fix: a timing packet sets the time in ticks like every
 other packet

---
 source/IOHaptics/src/IOStream.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a710bda..70b563c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -681,9 +681,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
-    readTiming(sreader, payload);
-    sreader.time = (sreader.time * TIME_TO_MS) / sreader.timescale;
-    return true;
+    return readTiming(sreader, payload);
   }
   case (MIHSPacketType::MetadataHaptics): {
     return readMetadataHaptics(sreader.haptic, payload);
-- 
2.43.0


From c0ef7c985143c5a65797df960298aa2d408943ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 27/86] fix: check a CRC once, over the packets it was computed
 from, in their order

---
 source/IOHaptics/include/IOStream.h |  3 ++-
 source/IOHaptics/src/IOStream.cpp   | 40 +++++++++++++++++------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 2f1d4f4..705d6c9 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -82,6 +82,7 @@ public:
     uint16_t polynomial16 = CRC16_POLYNOMIAL;
     uint32_t polynomial32 = CRC32_POLYNOMIAL;
     uint8_t nbPackets = 0;
+    int nbBits = 0;
     uint16_t value16 = 0;
     uint32_t value32 = 0;
   };
@@ -215,7 +216,7 @@ private:
   static auto writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool;
 
   static auto writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<bool> &packetCRC,
-                       int crcLevel) -> bool;
+                       int crcLevel, bool global) -> bool;
 
   static auto computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polynomial) -> bool;
 
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 70b563c..f86ebd7 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -583,7 +583,11 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
     if (mihsPacketType == MIHSPacketType::CRC32 || mihsPacketType == MIHSPacketType::GlobalCRC32) {
       crcLevel = 1;
     }
-    writeCRC(bitstream, mihsPacketPayload, crcLevel);
+    bool global = mihsPacketType == MIHSPacketType::GlobalCRC16 ||
+                  mihsPacketType == MIHSPacketType::GlobalCRC32;
+    if (!writeCRC(bitstream, mihsPacketPayload, crcLevel, global)) {
+      return false;
+    }
     writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
                           mihsPacketHeader);
     mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
@@ -2180,7 +2184,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
 }
 
 auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<bool> &packetCRC,
-                        int crcLevel) -> bool {
+                        int crcLevel, bool global) -> bool {
   std::vector<bool> polynomial = std::vector<bool>();
   if (crcLevel == 0) {
     std::bitset<CRC16_NB_BITS> polynomialBits(CRC16_POLYNOMIAL);
@@ -2199,21 +2203,17 @@ auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<b
 
   std::vector<bool> quotient = std::vector<bool>();
   int nbPackets = 0;
-  if (bitstream.empty()) {
-    quotient = bitstream[0];
-    nbPackets++;
-  } else if (bitstream.size() > 1) {
-    for (auto &packet : bitstream) {
-      quotient.insert(quotient.end(), packet.begin(), packet.end());
-      nbPackets++;
-    }
-  } else {
+  if (!global && bitstream.size() > 1) {
     return false;
   }
+  for (auto &packet : bitstream) {
+    quotient.insert(quotient.end(), packet.begin(), packet.end());
+    nbPackets++;
+  }
   if (quotient.empty()) {
     return false;
   }
-  if (nbPackets > 1) {
+  if (global) {
     std::bitset<GCRC_NB_PACKET> nbPacketsBits(nbPackets);
     std::string nbPacketsStr = nbPacketsBits.to_string();
     IOBinaryPrimitives::writeStrBits(nbPacketsBits.to_string(), packetCRC);
@@ -2227,24 +2227,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
   int idx = 0;
   if (mihsPacketType == MIHSPacketType::CRC16) {
     crc.nbPackets = 1;
+    crc.nbBits = CRC16_NB_BITS;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
     crc.nbPackets = 1;
+    crc.nbBits = CRC32_NB_BITS;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
+    crc.nbBits = CRC16_NB_BITS;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
+    crc.nbBits = CRC32_NB_BITS;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     return true;
@@ -2254,17 +2258,19 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
 
 auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) -> bool {
   std::vector<bool> protectedPackets = std::vector<bool>();
-  if (bitstream.size() < crc.nbPackets) {
+  int nbPackets = crc.nbPackets;
+  crc.nbPackets = 0; // each CRC is checked once
+  if (static_cast<int>(bitstream.size()) < nbPackets) {
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
+  while (index < nbPackets) {
+    protectedPackets.insert(protectedPackets.end(), bitstream[index].begin(),
                             bitstream[index].end());
     index++;
   }
   bool res = false;
-  if (crc.value16 > 0) {
+  if (crc.nbBits == CRC16_NB_BITS) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
@@ -2279,7 +2285,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
       crc.value16 = 0;
       res = false;
     }
-  } else if (crc.value32 > 0) {
+  } else if (crc.nbBits == CRC32_NB_BITS) {
     std::bitset<CRC32_NB_BITS> polynomialBits(crc.polynomial32);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
-- 
2.43.0


From ade52acf8665dd5fe2ce1014d2397cf036490059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 28/86] fix: a truncated stream file is not loaded

---
 source/IOHaptics/src/IOStream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index f86ebd7..c451709 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -110,12 +110,19 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
+    if (length - byteCount < static_cast<unsigned int>(unitNBits / BYTE_SIZE)) {
+      return false; // truncated
+    }
     IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
     int bytesToRead = IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH);
 
+    if (length - byteCount < static_cast<unsigned int>(bytesToRead)) {
+      return false; // truncated
+    }
+
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
     IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
-- 
2.43.0


From c3c8d78c806051a5cfa994afa780ec707f1dfd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 29/86] fix: a truncated binary file is not loaded

---
 source/IOHaptics/src/IOBinary.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 696758c..ee14bfe 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -46,9 +46,9 @@ auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::vector<bool> unusedBits;
   bool res = readFileHeader(out, istr, unusedBits);
   if (res) {
-    readFileBody(out, istr, unusedBits);
+    res = readFileBody(out, istr, unusedBits);
   }
-  return res;
+  return res && !istr.fail(); // nothing may be missing
 }
 
 auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> bool {
@@ -70,8 +70,9 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
   std::vector<bool> unusedBits;
   bool res = IOBinary::readFileHeader(out, file, unusedBits);
   if (res) {
-    IOBinary::readFileBody(out, file, unusedBits);
+    res = IOBinary::readFileBody(out, file, unusedBits);
   }
+  res = res && !file.fail(); // nothing may be missing
 
   file.close();
   return res;
-- 
2.43.0


From 8a21f36591b399993340c7880fd4434ac3b8331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 30/86] fix: replacing the metadata of a perception does not
 add an empty semantic scheme

---
 source/Types/src/Haptics.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index b389cc3..f7ca432 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -84,8 +84,10 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  auto semantic = newPerception.getEffectSemanticSchemeOrDefault();
-  perceptions[index].setEffectSemanticScheme(semantic);
+  if (newPerception.getEffectSemanticScheme().has_value()) {
+    auto semantic = newPerception.getEffectSemanticScheme().value();
+    perceptions[index].setEffectSemanticScheme(semantic);
+  }
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
-- 
2.43.0


From e3f63908b8cb14d7a5596c5b25311b07b585a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 31/86] fix: stream effects keep apart from references and
 composite parts with the same id

---
 source/IOHaptics/src/IOStream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index c451709..527b5a0 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2663,7 +2663,8 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
                                           .getBandAt(bandIndex)
                                           .getEffectAt(i);
 
-        if (effect.getId() == hapticEffect.getId()) {
+        if (hapticEffect.getEffectType() == types::EffectType::Basis &&
+            effect.getId() == hapticEffect.getId()) {
           for (size_t j = 0; j < effect.getKeyframesSize(); j++) {
             hapticEffect.addKeyframe(effect.getKeyframeAt(static_cast<int>(j)));
           }
@@ -2689,6 +2690,15 @@ auto IOStream::addTimestampEffect(std::vector<types::Effect> &effects, int times
   return true;
 }
 
+static auto addEffectId(types::Effect &effect, std::vector<int> &effectsId) -> void {
+  if (effect.getId() != -1) {
+    effectsId.push_back(effect.getId());
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    addEffectId(effect.getTimelineEffectAt(i), effectsId);
+  }
+}
+
 auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
   std::vector<int> effectsId = std::vector<int>();
   for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
@@ -2699,9 +2709,7 @@ auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
         types::Band band = channel.getBandAt(k);
         for (int l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
           types::Effect effect = band.getEffectAt(l);
-          if (effect.getId() != -1) {
-            effectsId.push_back(effect.getId());
-          }
+          addEffectId(effect, effectsId);
         }
       }
     }
-- 
2.43.0


From 0bcfc567a8da83117f7b1de75c91e0e3a2a74597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 32/86] fix: a wavelet stream of zero bytes does not end the
 writing or loading of an HJIF file

---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..f0be1c1 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1693,7 +1693,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1749,7 +1749,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
-- 
2.43.0


From a8d4e68fb4ce2f255fd2f19fb8f227f494ae9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 33/86] fix: report unknown names in an HJIF file like other
 invalid values instead of throwing

---
 source/IOHaptics/src/IOJson.cpp | 38 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index f0be1c1..20c1c9e 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -693,7 +693,9 @@ auto IOJson::loadPerceptions(const rapidjson::Value &jsonPerceptions, types::Hap
       continue;
     }
     if (!jsonPerception.HasMember("perception_modality") ||
-        !jsonPerception["perception_modality"].IsString()) {
+        !jsonPerception["perception_modality"].IsString() ||
+        types::stringToPerceptionModality.count(
+            jsonPerception["perception_modality"].GetString()) == 0) {
       std::cerr << "Missing or invalid perception modality" << std::endl;
       continue;
     }
@@ -782,7 +784,8 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
     auto jsonEffect = jev.GetObject();
 
-    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString()) {
+    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString() ||
+        types::stringToEffectType.count(jsonEffect["effect_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid effect type" << std::endl;
       continue;
     }
@@ -812,7 +815,8 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
-    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
+    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString() &&
+        types::stringToBaseSignal.count(jsonEffect["base_signal"].GetString()) > 0) {
       auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
       effect.setBaseSignal(baseSignal);
     }
@@ -892,9 +896,13 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
     std::vector<std::string> bodyPartTargetString;
     if (IOJsonPrimitives::getStringArray(jsonChannel, "body_part_target", bodyPartTargetString)) {
       std::vector<types::BodyPartTarget> bodyPartTarget;
-      std::transform(bodyPartTargetString.begin(), bodyPartTargetString.end(),
-                     std::back_inserter(bodyPartTarget),
-                     [](const std::string &str) { return types::stringToBodyPartTarget.at(str); });
+      for (const auto &str : bodyPartTargetString) {
+        if (types::stringToBodyPartTarget.count(str) == 0) {
+          std::cerr << "Invalid body part target" << std::endl;
+          continue;
+        }
+        bodyPartTarget.push_back(types::stringToBodyPartTarget.at(str));
+      }
       channel.setBodyPartTarget(bodyPartTarget);
     }
 
@@ -939,7 +947,8 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
     }
     auto jsonBand = jbv.GetObject();
 
-    if (!jsonBand.HasMember("band_type") || !jsonBand["band_type"].IsString()) {
+    if (!jsonBand.HasMember("band_type") || !jsonBand["band_type"].IsString() ||
+        types::stringToBandType.count(jsonBand["band_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid band type" << std::endl;
       continue;
     }
@@ -969,7 +978,8 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
 
     types::Band band(bandType, lowerLimit, upperLimit);
 
-    if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString()) {
+    if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString() &&
+        types::stringToCurveType.count(jsonBand["curve_type"].GetString()) > 0) {
       types::CurveType curveType = types::stringToCurveType.at(jsonBand["curve_type"].GetString());
       band.setCurveType(curveType);
     }
@@ -997,7 +1007,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
     auto jsonEffect = jev.GetObject();
 
-    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString()) {
+    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString() ||
+        types::stringToEffectType.count(jsonEffect["effect_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid effect type" << std::endl;
       continue;
     }
@@ -1031,7 +1042,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
-    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
+    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString() &&
+        types::stringToBaseSignal.count(jsonEffect["base_signal"].GetString()) > 0) {
       auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
       effect.setBaseSignal(baseSignal);
     }
@@ -1070,7 +1082,8 @@ auto IOJson::loadAvatars(const rapidjson::Value &jsonAvatars, types::Haptics &ha
       std::cerr << "Missing or invalid avatar lod" << std::endl;
       continue;
     }
-    if (!jsonAvatar.HasMember("type") || !jsonAvatar["type"].IsString()) {
+    if (!jsonAvatar.HasMember("type") || !jsonAvatar["type"].IsString() ||
+        types::stringToAvatarType.count(jsonAvatar["type"].GetString()) == 0) {
       std::cerr << "Missing or invalid avatar type" << std::endl;
       continue;
     }
@@ -1155,7 +1168,8 @@ auto IOJson::loadReferenceDevices(const rapidjson::Value &jsonReferenceDevices,
     if (jsonReferenceDevice.HasMember("custom") && jsonReferenceDevice["custom"].IsNumber()) {
       referenceDevice.setCustom(jsonReferenceDevice["custom"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString()) {
+    if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString() &&
+        types::stringToActuatorType.count(jsonReferenceDevice["type"].GetString()) > 0) {
       referenceDevice.setType(
           types::stringToActuatorType.at(jsonReferenceDevice["type"].GetString()));
     }
-- 
2.43.0


From 0280bfc09ab3c7ef27d64e1e5caa5185a5c9ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 34/86] fix: refuse an HJIF file whose required fields have a
 wrong type

---
 source/IOHaptics/src/IOJson.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 20c1c9e..ae93fee 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -636,14 +636,16 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   if (!schemaConformanceCheck(jsonTree, filePath)) {
     return false;
   }
-  if (!(jsonTree.HasMember("version") && jsonTree.HasMember("profile") &&
-        jsonTree.HasMember("level") && jsonTree.HasMember("date") &&
-        jsonTree.HasMember("description") && jsonTree.HasMember("timescale") &&
+  if (!(jsonTree.HasMember("version") && jsonTree["version"].IsString() &&
+        jsonTree.HasMember("profile") && jsonTree["profile"].IsString() &&
+        jsonTree.HasMember("level") && jsonTree["level"].IsUint() && jsonTree.HasMember("date") &&
+        jsonTree["date"].IsString() && jsonTree.HasMember("description") &&
+        jsonTree["description"].IsString() && jsonTree.HasMember("timescale") &&
         jsonTree.HasMember("perceptions") && jsonTree["perceptions"].IsArray() &&
         jsonTree.HasMember("avatars") && jsonTree["avatars"].IsArray() &&
         jsonTree.HasMember("syncs") && jsonTree["syncs"].IsArray())) {
 
-    std::cerr << "Invalid HJIF input file: missing required field" << std::endl;
+    std::cerr << "Invalid HJIF input file: missing or invalid required field" << std::endl;
     return false;
   }
 
-- 
2.43.0


From 69b85af1e4131a0179ec60ed78df3ec38e1e43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 35/86] fix: check the members of every HJIF effect and channel
 before they are read

---
 source/IOHaptics/src/IOJson.cpp | 43 ++++++++++++---------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index ae93fee..0c1f1df 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -793,20 +793,13 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
-    if (effectType == types::EffectType::Reference) {
-      if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
-        std::cerr << "Missing or invalid effect id" << std::endl;
-        continue;
-      }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
-    } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
+    if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
+      std::cerr << "Missing or invalid effect id" << std::endl;
+      continue;
+    }
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
     }
 
     auto effectId = jsonEffect["id"].GetInt();
@@ -827,7 +820,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto semantic = std::string(jsonEffect["semantic_keywords"].GetString());
       effect.setSemantic(semantic);
     }
-    if (jsonEffect.HasMember("keyframes")) {
+    if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
 
@@ -862,7 +855,7 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
       std::cerr << "Missing or invalid channel mixing coefficient" << std::endl;
       continue;
     }
-    if (!IOJsonPrimitives::hasNumber(jsonChannel, "body_part_mask")) {
+    if (!IOJsonPrimitives::hasUint(jsonChannel, "body_part_mask")) {
       std::cerr << "Missing or invalid channel body part mask" << std::endl;
       continue;
     }
@@ -1016,23 +1009,19 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
+    }
     if (effectType == types::EffectType::Reference) {
       if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
         std::cerr << "Missing or invalid effect id" << std::endl;
         continue;
       }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
     } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
       if (band.getBandType() == types::BandType::WaveletWave) {
-        if (!jsonEffect.HasMember("wavelet_stream")) {
-          std::cerr << "Missing wavelet_stream" << std::endl;
+        if (!jsonEffect.HasMember("wavelet_stream") || !jsonEffect["wavelet_stream"].IsString()) {
+          std::cerr << "Missing or invalid wavelet_stream" << std::endl;
           continue;
         }
       }
@@ -1059,7 +1048,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
-    if (jsonEffect.HasMember("wavelet_stream")) {
+    if (jsonEffect.HasMember("wavelet_stream") && jsonEffect["wavelet_stream"].IsString()) {
       loadingSuccess = loadingSuccess && loadBitstream(jsonEffect["wavelet_stream"], effect);
     }
 
-- 
2.43.0


From 8373d64633d8bedcce2c5a69989f910d90628911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 36/86] fix: always write the timescale the HJIF loader
 requires

---
 source/IOHaptics/src/IOJson.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 0c1f1df..64ecc25 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1253,9 +1253,7 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   jsonTree.AddMember("description",
                      rapidjson::Value(haptic.getDescription().c_str(), jsonTree.GetAllocator()),
                      jsonTree.GetAllocator());
-  if (haptic.getTimescale().has_value()) {
-    jsonTree.AddMember("timescale", haptic.getTimescale().value(), jsonTree.GetAllocator());
-  }
+  jsonTree.AddMember("timescale", haptic.getTimescaleOrDefault(), jsonTree.GetAllocator());
 
   auto jsonAvatars = rapidjson::Value(rapidjson::kArrayType);
   extractAvatars(haptic, jsonAvatars, jsonTree);
-- 
2.43.0


From e1ec661189925dcc47b85b3f3d8412aaecfdda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 37/86] fix: HJIF values beyond the range of their field are
 invalid instead of wrapping around

---
 source/IOHaptics/src/IOJson.cpp           | 25 ++++++++++-------------
 source/IOHaptics/src/IOJsonPrimitives.cpp |  7 +++++++
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 64ecc25..11beeb3 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -39,6 +39,7 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 
@@ -638,8 +639,9 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   }
   if (!(jsonTree.HasMember("version") && jsonTree["version"].IsString() &&
         jsonTree.HasMember("profile") && jsonTree["profile"].IsString() &&
-        jsonTree.HasMember("level") && jsonTree["level"].IsUint() && jsonTree.HasMember("date") &&
-        jsonTree["date"].IsString() && jsonTree.HasMember("description") &&
+        jsonTree.HasMember("level") && jsonTree["level"].IsUint() &&
+        jsonTree["level"].GetUint() <= std::numeric_limits<uint8_t>::max() &&
+        jsonTree.HasMember("date") && jsonTree["date"].IsString() && jsonTree.HasMember("description") &&
         jsonTree["description"].IsString() && jsonTree.HasMember("timescale") &&
         jsonTree.HasMember("perceptions") && jsonTree["perceptions"].IsArray() &&
         jsonTree.HasMember("avatars") && jsonTree["avatars"].IsArray() &&
@@ -722,11 +724,15 @@ auto IOJson::loadPerceptions(const rapidjson::Value &jsonPerceptions, types::Hap
     if (jsonPerception.HasMember("priority") && jsonPerception["priority"].IsInt()) {
       perception.setPriority(jsonPerception["priority"].GetInt());
     }
-    if (jsonPerception.HasMember("unit_exponent") && jsonPerception["unit_exponent"].IsInt()) {
+    if (jsonPerception.HasMember("unit_exponent") && jsonPerception["unit_exponent"].IsInt() &&
+        jsonPerception["unit_exponent"].GetInt() >= std::numeric_limits<int8_t>::min() &&
+        jsonPerception["unit_exponent"].GetInt() <= std::numeric_limits<int8_t>::max()) {
       perception.setUnitExponent(jsonPerception["unit_exponent"].GetInt());
     }
     if (jsonPerception.HasMember("perception_unit_exponent") &&
-        jsonPerception["perception_unit_exponent"].IsInt()) {
+        jsonPerception["perception_unit_exponent"].IsInt() &&
+        jsonPerception["perception_unit_exponent"].GetInt() >= std::numeric_limits<int8_t>::min() &&
+        jsonPerception["perception_unit_exponent"].GetInt() <= std::numeric_limits<int8_t>::max()) {
       perception.setPerceptionUnitExponent(jsonPerception["perception_unit_exponent"].GetInt());
     }
     loadingSuccess = loadingSuccess && loadLibrary(jsonPerception["effect_library"], perception);
@@ -1212,16 +1218,7 @@ auto IOJson::loadBitstream(const rapidjson::Value &jsonBitstream, types::Effect
 }
 
 auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vector) -> bool {
-  if (!(jsonVector.IsObject() && jsonVector.HasMember("X") && jsonVector["X"].IsInt() &&
-        jsonVector.HasMember("Y") && jsonVector["Y"].IsInt() && jsonVector.HasMember("Z") &&
-        jsonVector["Z"].IsInt())) {
-    return false;
-  }
-
-  vector = types::Vector(static_cast<int8_t>(jsonVector["X"].GetInt()),
-                         static_cast<int8_t>(jsonVector["Y"].GetInt()),
-                         static_cast<int8_t>(jsonVector["Z"].GetInt()));
-  return true;
+  return IOJsonPrimitives::getVector(jsonVector, vector);
 }
 
 auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
diff --git a/source/IOHaptics/src/IOJsonPrimitives.cpp b/source/IOHaptics/src/IOJsonPrimitives.cpp
index e5a26ce..6506ff0 100644
--- a/source/IOHaptics/src/IOJsonPrimitives.cpp
+++ b/source/IOHaptics/src/IOJsonPrimitives.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <IOHaptics/include/IOJsonPrimitives.h>
+#include <limits>
 
 #if defined(_MSC_VER)
 #pragma warning(push)
@@ -83,6 +84,12 @@ IOJsonPrimitives::hasArray(const rapidjson::GenericObject<true, rapidjson::Value
         jsonValue["Z"].IsInt())) {
     return false;
   }
+  for (const char *axis : {"X", "Y", "Z"}) {
+    if (jsonValue[axis].GetInt() < std::numeric_limits<int8_t>::min() ||
+        jsonValue[axis].GetInt() > std::numeric_limits<int8_t>::max()) {
+      return false;
+    }
+  }
 
   output.X = static_cast<int8_t>(jsonValue["X"].GetInt());
   output.Y = static_cast<int8_t>(jsonValue["Y"].GetInt());
-- 
2.43.0


From 9e1e545f6ff4e21cfce0a9d7cdb02f97f2d22996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 38/86] fix: a negative block length is not a power of two

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 08e1097..efda36f 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -433,6 +433,6 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return !s.empty() && it == s.end();
 }
 
-[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n != 0) && ((n & (n - 1)) == 0); }
+[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n > 0) && ((n & (n - 1)) == 0); }
 
 } // namespace haptics::tools
-- 
2.43.0


From 494d66d7e4140d164c4949ce13b5539c1ddf13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 39/86] fix: accept HJIF perceptions that name their semantic
 scheme by a URN

---
 source/IOHaptics/include/IOJson.h | 1 +
 source/IOHaptics/src/IOJson.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index 31eae46..c500b45 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -106,6 +106,7 @@ public:
   static auto versionCheck(const std::string &version, bool log) -> bool;
   static auto dateCheck(const std::string &date, bool log) -> bool;
   static auto URICheck(const std::string &uri, bool log) -> bool;
+  static auto URNCheck(const std::string &urn) -> bool;
   static auto schemaConformanceCheck(const rapidjson::Document &hjifFile,
                                      const std::string &filePath) -> bool;
   static auto semanticConformanceCheckExperience(types::Haptics &haptic) -> bool;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 11beeb3..57e891a 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -93,6 +93,11 @@ auto IOJson::URICheck(const std::string &uri, bool log) -> bool {
   return true;
 }
 
+auto IOJson::URNCheck(const std::string &urn) -> bool {
+  const std::regex urn_regex("^[uU][rR][nN]:[a-zA-Z0-9][a-zA-Z0-9-]{0,31}:.+");
+  return regex_search(urn, urn_regex);
+}
+
 auto IOJson::dateCheck(const std::string &date, bool log) -> bool {
   const std::regex txt_regex("[+-]?[0-9]{4}(-[01][0-9](-[0-3][0-9](T[0-2][0-9]:[0-5][0-9]:?([0-5]["
                              "0-9](.[0-9]+)?)?[+-][0-2][0-9]:[0-5][0-9]Z?)?)?)?");
@@ -280,9 +285,8 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   }
 
   // Check the URN
-  // TODO
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN) {
+  if (semanticSchemeURN && !URNCheck(semanticSchemeURN.value())) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From 43a746833f7d21429808a165b9a0351a62e68f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 40/86] fix: refuse an HJIF file with an unreadable timescale
 instead of assuming milliseconds

---
 source/IOHaptics/src/IOJson.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 57e891a..c3b1f39 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -647,6 +647,7 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
         jsonTree["level"].GetUint() <= std::numeric_limits<uint8_t>::max() &&
         jsonTree.HasMember("date") && jsonTree["date"].IsString() && jsonTree.HasMember("description") &&
         jsonTree["description"].IsString() && jsonTree.HasMember("timescale") &&
+        jsonTree["timescale"].IsUint() &&
         jsonTree.HasMember("perceptions") && jsonTree["perceptions"].IsArray() &&
         jsonTree.HasMember("avatars") && jsonTree["avatars"].IsArray() &&
         jsonTree.HasMember("syncs") && jsonTree["syncs"].IsArray())) {
@@ -665,9 +666,7 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   haptic.setLevel(level);
   haptic.setDate(date);
   haptic.setDescription(description);
-  if (jsonTree.HasMember("timescale") && jsonTree["timescale"].IsUint()) {
-    haptic.setTimescale(jsonTree["timescale"].GetUint());
-  }
+  haptic.setTimescale(jsonTree["timescale"].GetUint());
   loadingSuccess = loadingSuccess && loadAvatars(jsonTree["avatars"], haptic);
   loadingSuccess = loadingSuccess && loadPerceptions(jsonTree["perceptions"], haptic);
   loadingSuccess = loadingSuccess && loadSyncs(jsonTree["syncs"], haptic);
-- 
2.43.0


From e63c5b95ec64ad6dc1a11d77b29643d2994d81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 41/86] fix: a stream of zeros only encodes to nothing instead
 of throwing

---
 source/Spiht/src/ArithEnc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From 4fbb97ba9a57fe1ac256d1c501ed486a751b2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 42/86] fix: OHM body part masks keep the bits next to a byte
 of 128 or more

---
 source/Tools/src/OHMData.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..d0fb315 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -120,9 +120,10 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
 
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
-      channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+      uint32_t mask = 0;
+      std::reverse(bodyPartMaskBytes.begin(), bodyPartMaskBytes.end());
+      memcpy(&mask, &bodyPartMaskBytes, sizeof(mask));
+      channel.bodyPartMask = static_cast<Body>(mask);
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From 3c8dc544cf93f3954e5a54591446b2dd89fe1bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 43/86] fix: loading an OHM file replaces the elements loaded
 before

---
 source/Tools/src/OHMData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index d0fb315..450547a 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -43,6 +43,7 @@ OHMData::OHMData(const std::string &filePath) { loadFile(filePath); }
 
 auto OHMData::loadFile(const std::string &filePath) -> bool {
   version = 1;
+  elementsMetadata.clear();
   std::ifstream file(filePath, std::ios::binary | std::ifstream::in);
   if (!file) {
     std::cerr << filePath << ": Cannot open file!" << std::endl;
-- 
2.43.0


From 6a4e2c242508c41a4e268f03f9d4d9ff13d49912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 44/86] fix: refuse an OHM file that ends too early

---
 source/Tools/src/OHMData.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 450547a..08a9665 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -90,7 +90,7 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   description = std::string(descriptionBytes.data(), descriptionByteSize);
   description.erase(description.find_last_not_of('\x00') + 1);
 
-  for (int i = 0; i < numElements; i++) {
+  for (int i = 0; i < numElements && file; i++) {
     HapticElementMetadata element;
     std::array<char, fileNameByteSize> hapticObjectFileNameBytes{};
     file.read(hapticObjectFileNameBytes.data(), fileNameByteSize);
@@ -107,7 +107,7 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
     std::reverse(numHapticChannelsBytes.begin(), numHapticChannelsBytes.end());
     memcpy(&element.numHapticChannels, &numHapticChannelsBytes, sizeof(element.numHapticChannels));
 
-    for (int j = 0; j < element.numHapticChannels; j++) {
+    for (int j = 0; j < element.numHapticChannels && file; j++) {
       HapticChannelMetadata channel;
       std::array<char, descriptionByteSize> channelDescriptionBytes{};
       file.read(channelDescriptionBytes.data(), descriptionByteSize);
@@ -130,6 +130,11 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
     }
     elementsMetadata.push_back(element);
   }
+  if (!file) {
+    std::cerr << filePath << ": Unexpected end of file!" << std::endl;
+    file.close();
+    return false;
+  }
   file.close();
   return true;
 }
-- 
2.43.0


From 4fbf4f7c9ed2e81ce655ed7e1dbdfe59be8655a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 45/86] fix: decoding a short wavelet block no longer writes
 past its end

---
 source/Spiht/src/Spiht_Dec.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/Spiht/src/Spiht_Dec.cpp b/source/Spiht/src/Spiht_Dec.cpp
index f69bfb4..399401f 100644
--- a/source/Spiht/src/Spiht_Dec.cpp
+++ b/source/Spiht/src/Spiht_Dec.cpp
@@ -39,6 +39,12 @@ void Spiht_Dec::decodeEffect(std::vector<unsigned char> &in, std::vector<int> &o
                              double &wavmax, int &bits) {
   std::vector<unsigned char> in_bits;
   ArithDec::convert2bits(in, in_bits);
+  if (origlength <= 0) {
+    out.clear();
+    wavmax = 0;
+    bits = 0;
+    return;
+  }
   auto level = (int)(log2((double)origlength) - 2);
   wavmax = 0;
   bits = 0;
@@ -75,7 +81,7 @@ void Spiht_Dec::initLists(int origlength, int level) {
   LIS1.clear();
   LIS2.clear();
   LSP.clear();
-  for (int i = 0; i < bandsize; i++) {
+  for (int i = 0; i < bandsize && i < origlength; i++) {
     LIP.push_back(i);
   }
   for (int i = (bandsize / 2); i < bandsize; i++) {
@@ -128,6 +134,11 @@ void Spiht_Dec::sortingPass(std::vector<int> &out, int origlength, int compare)
     if (*it2 == 0) {
       if (getBit(CONTEXT_3) == 1) {
         int y = *it1;
+        if (2 * y + 1 >= origlength) { // the block is too short to have these children
+          it1++;
+          it2++;
+          continue;
+        }
         // Children
         int index = 2 * y;
         if (getBit(CONTEXT_4) == 1) {
-- 
2.43.0


From 8c766d9a77349019a6d1460befbe17d4563fceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 46/86] fix: decode wavelet bands at the timescale of the
 experience and at their positions

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index e1d7fbc..98470ef 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -32,9 +32,18 @@
  */
 
 #include "../include/WaveletDecoder.h"
+#include <Tools/include/Tools.h>
 
 namespace haptics::waveletdecoder {
 
+// length of a block in samples; block lengths are in ticks
+static auto blockSamples(Band &band, unsigned int timescale) -> int {
+  return static_cast<int>((static_cast<int64_t>(band.getBlockLengthOrDefault()) *
+                               band.getUpperFrequencyLimit() +
+                           timescale / 2) /
+                          std::max<int64_t>(timescale, 1));
+}
+
 auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double> {
   if (band.getBandType() != BandType::WaveletWave || !band.getBlockLength().has_value()) {
     return std::vector<double>();
@@ -64,8 +73,10 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)(band.getBlockLengthOrDefault() * MS_2_S_WAVELET *
-                  (double)band.getUpperFrequencyLimit());
+  int bl = blockSamples(band, timescale);
+  if (!tools::isPowerOfTwo(bl)) {
+    return;
+  }
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
@@ -77,8 +88,7 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
     scalar /= pow(2, (double)bits);
     Effect newEffect;
-    newEffect.setPosition(
-        (int)((double)b * (double)bl * (double)timescale / (double)band.getUpperFrequencyLimit()));
+    newEffect.setPosition(effect.getPosition());
     auto block_time = std::vector<double>();
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
     newEffect.setWaveletSamples(block_time);
-- 
2.43.0


From 060a08ee93e5ed9c7e1d6fc7ad898b760875d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 47/86] fix: decodeBand scales the samples and places the
 blocks in samples, not ticks

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 98470ef..5681f6b 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -49,7 +49,10 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     return std::vector<double>();
   }
   size_t numBlocks = band.getEffectsSize();
-  int bl = band.getBlockLength().value() * band.getUpperFrequencyLimit() / timescale;
+  int bl = blockSamples(band, timescale);
+  if (!tools::isPowerOfTwo(bl)) {
+    return std::vector<double>();
+  }
   int dwtlevel = (int)log2((double)bl / 4);
   std::vector<double> sig_rec(numBlocks * bl, 0);
 
@@ -61,8 +64,16 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     int bits = 0;
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
     std::vector<double> block_time(bl);
-    decodeBlock(block_dwt, block_time, scalar, dwtlevel);
-    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + effect.getPosition());
+    decodeBlock(block_dwt, block_time, scalar / pow(2, (double)bits), dwtlevel);
+    auto start = static_cast<int64_t>(effect.getPosition()) * band.getUpperFrequencyLimit() /
+                 std::max(timescale, 1); // in samples
+    if (start < 0) {
+      continue;
+    }
+    if (sig_rec.size() < static_cast<size_t>(start + bl)) {
+      sig_rec.resize(start + bl, 0);
+    }
+    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + start);
   }
   return sig_rec;
 }
-- 
2.43.0


From 2028085dccb432d201acd1079fbec9a6797d290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 48/86] fix: a transient keyframe without amplitude does not
 stop the evaluation forever

---
 source/Types/src/Effect.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2bd7c72..9e2628a 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -323,13 +323,11 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
 
   double res = 0;
   while (it != keyframes.rend() && checkingFunction(*it)) {
-    if (!it->getAmplitudeModulation().has_value()) {
-      continue;
+    if (it->getAmplitudeModulation().has_value()) {
+      res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
+                      transientDuration) *
+             it->getAmplitudeModulation().value();
     }
-
-    res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
-                    transientDuration) *
-           it->getAmplitudeModulation().value();
     it++;
   }
 
-- 
2.43.0


From 8e0ae39e112a6b3c1eac8807d07477dafe32ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 49/86] fix: the last transient of a band is not cut short by
 the timescale

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..c6eb5fe 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -127,7 +127,8 @@ auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLim
   if (effects.empty() ||
       ((this->bandType != types::BandType::WaveletWave) &&
        (position > effects.back().getPosition() +
-                       effects.back().getEffectTimeLength(bandType, TRANSIENT_DURATION_MS) ||
+                       effects.back().getEffectTimeLength(
+                           bandType, Band::getTransientDuration(timescale)) ||
         position < 0))) {
     return 0;
   }
-- 
2.43.0


From 191f66ba2720c67cbb5f00ab35974d85fa7fd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 50/86] fix: the phase of a vectorial effect follows the
 timescale

---
 source/Types/src/Effect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 9e2628a..50e2bc0 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -250,11 +250,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
             pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
                        ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                        : 0);
-        phi += M_PI * deltaT * MS_2_S *
+        phi += M_PI * deltaT / static_cast<double>(timescale) *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
-        phi += 2 * M_PI * pos * MS_2_S *
+        phi += 2 * M_PI * pos / static_cast<double>(timescale) *
                firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value();
       }
     }
-- 
2.43.0


From f9b134a5b1e68d05d459066cebb412e74653a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 51/86] fix: the phase of a vectorial effect goes on after its
 last frequency keyframe

---
 source/Types/src/Effect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 50e2bc0..c584174 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -292,6 +292,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         });
     if (frequencyKeyframeIt < keyframes.rend()) {
       freq_modulation = frequencyKeyframeIt->getFrequencyModulation().value();
+      // the phase already covers the time up to this keyframe
+      relativePosition -= frequencyKeyframeIt->getRelativePosition().value_or(0);
     }
   }
 
-- 
2.43.0


From d68277e67ad2c9dbfdbabf091b978b0cf7a1256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 52/86] fix: linear and cubic interpolation of points at the
 same place

---
 source/Tools/src/Tools.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index efda36f..df52307 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -103,12 +103,15 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     double t1 = points[i + 1].first;
     double f1 = points[i + 1].second;
     while (t <= t1) {
-      double amp = (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0);
+      double amp = t1 > t0 ? (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0) : f1;
       Ylinear.push_back(amp);
       t += 1;
     }
     i++;
   }
+  if (Ylinear.empty()) { // every point at the same place
+    Ylinear.push_back(points.back().second);
+  }
   return Ylinear;
 }
 
@@ -124,12 +127,17 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     double f1 = points[i + 1].second;
     double h = t1 - t0;
     while (t <= t1) {
-      double amp = f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3);
+      double amp = h > 0 ? f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) /
+                                    std::pow(h, 3)
+                         : f1;
       Ylinear.push_back(amp);
       t += 1;
     }
     i++;
   }
+  if (Ylinear.empty()) { // every point at the same place
+    Ylinear.push_back(points.back().second);
+  }
   return Ylinear;
 }
 [[nodiscard]] auto cubicInterpolation(const std::vector<std::pair<int, double>> &points)
-- 
2.43.0


From 7b2acdd04736f6d0cb5274b0c0b17a3a7e6eef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 53/86] fix: sampled curves start at their position and first
 keyframe, with two keyframes too

---
 source/Types/src/Band.cpp | 52 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index c6eb5fe..401ad4b 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -34,6 +34,7 @@
 #include <Tools/include/Tools.h>
 #include <Types/include/Band.h>
 #include <algorithm>
+#include <cmath>
 
 namespace haptics::types {
 
@@ -175,21 +176,27 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
-      std::vector<std::pair<int, double>> keyframes(
-          e.getKeyframesSize()); // keyframes converted to position relative to fs
+      std::vector<std::pair<int, double>> keyframes; // keyframes converted to position relative to fs
+      int start = 0;                                 // first keyframe in samples
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
         types::Keyframe myKeyframe;
         myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first = static_cast<int>(myKeyframe.getRelativePosition().value() * fs /
-                                              timescale); // assuming position in ticks as input
-        if (i > 0) {
-          keyframes[i].first -= keyframes[0].first;
+        if (!myKeyframe.getRelativePosition().has_value() ||
+            !myKeyframe.getAmplitudeModulation().has_value()) {
+          continue;
         }
-        keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
+        auto sample = static_cast<int>(static_cast<double>(myKeyframe.getRelativePosition().value()) *
+                                       fs / timescale); // assuming position in ticks as input
+        if (keyframes.empty()) {
+          start = sample;
+        }
+        keyframes.emplace_back(sample - start, myKeyframe.getAmplitudeModulation().value());
+      }
+      if (keyframes.empty()) {
+        continue;
       }
-      keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
-      if (keyframes.size() == 2) {
+      if (keyframes.size() <= 2) {
         effectAmp = haptics::tools::linearInterpolation2(keyframes);
       } else {
         switch (getCurveTypeOrDefault()) {
@@ -212,20 +219,21 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
           effectAmp = haptics::tools::cubicInterpolation2(keyframes);
           break;
         }
+      }
 
-        int count = 0;
-        int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
-        }
+      int count = 0;
+      int position =
+          start + static_cast<int>(std::round(
+                      static_cast<double>(e.getPosition()) * fs / timescale +
+                      pad * MS_2_S * fs)); // position converted from ticks to samples rel. to fs
+      if (position < 0) {
+        count = -position;
+        position = 0;
+      }
+      for (int i = position;
+           (i < static_cast<int>(sampleCount)) && (count < static_cast<int>(effectAmp.size())); i++) {
+        bandAmp[i] += effectAmp[count];
+        count++;
       }
     }
     break;
-- 
2.43.0


From c8c84439533c3181834576fbfa8c954178ec1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 54/86] fix: sampling a band without effects read before the
 beginning of its effects

---
 source/Types/src/Band.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 401ad4b..42e34b0 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -238,11 +238,13 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
     }
     break;
   default:
+    if (effects.empty()) {
+      break;
+    }
     for (uint32_t ti = 0; ti < sampleCount; ti++) {
       double position = timescale * (static_cast<double>(ti) / static_cast<double>(fs) -
                                      (pad * MS_2_S)); // position in ticks needed
-      if (effects.empty() ||
-          ((position > effects.back().getPosition() +
+      if (((position > effects.back().getPosition() +
                            effects.back().getEffectTimeLength(
                                bandType, Band::getTransientDuration(timescale)) ||
             position < 0) &&
-- 
2.43.0


From f1b9346921b49f6a247ddebcd939cf7519ab333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 55/86] fix: samples taken at a tick were rounded to before
 that tick, playing wavelet samples twice or not at all

---
 source/Types/src/Band.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 42e34b0..3b4a008 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -242,8 +242,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       break;
     }
     for (uint32_t ti = 0; ti < sampleCount; ti++) {
-      double position = timescale * (static_cast<double>(ti) / static_cast<double>(fs) -
-                                     (pad * MS_2_S)); // position in ticks needed
+      double position = static_cast<double>(timescale) * ti / fs -
+                        static_cast<double>(timescale) * pad /
+                            TIMESCALE; // position in ticks needed
       if (((position > effects.back().getPosition() +
                            effects.back().getEffectTimeLength(
                                bandType, Band::getTransientDuration(timescale)) ||
-- 
2.43.0


From dae1f44d6257348ed0cc16560736a68878351e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 56/86] fix: sampled linear and cubic curves reach their last
 point

---
 source/Tools/src/Tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index df52307..a23d545 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -97,7 +97,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size()) && points.back().first > 0) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -120,7 +120,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size()) && points.back().first > 0) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
-- 
2.43.0


From 6efede12d5436b16d7322cebd253e039d3b4691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 57/86] fix: B-spline curves with a steep end read past their
 knots

---
 source/Tools/src/Tools.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index a23d545..3b2753a 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Tools/include/Tools.h>
+#include <algorithm>
 #include <cmath>
 
 namespace haptics::tools {
@@ -350,9 +351,9 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
 
   for (int m = 1; m < n; m++) {
     while (X1[2][2] < m) {
-      t0 = t0 + (1 / static_cast<double>(n)) / BSPLINE_STEP;
+      t0 = std::min(t0 + (1 / static_cast<double>(n)) / BSPLINE_STEP, 1.0);
       k = 0;
-      while (t0 >= t[k]) {
+      while (k < p && t0 >= t[k]) {
         k = k + 1;
       }
       X1[0][0] = points[k - 3].first;
-- 
2.43.0


From 084672417756516dd42af1e9ba5c034253b6dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 58/86] fix: Akima curves with points at the same place were
 not numbers

---
 source/Tools/src/Tools.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 3b2753a..12e0cd7 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -204,8 +204,18 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return output;
 }
 
-[[nodiscard]] auto akimaInterpolation(const std::vector<std::pair<int, double>> &points)
+[[nodiscard]] auto akimaInterpolation(const std::vector<std::pair<int, double>> &curve)
     -> std::vector<double> {
+  std::vector<std::pair<int, double>> points; // without points at the same place
+  for (const auto &point : curve) {
+    if (!points.empty() && points.back().first == point.first) {
+      points.pop_back();
+    }
+    points.push_back(point);
+  }
+  if (points.size() < 3) {
+    return linearInterpolation2(points);
+  }
   auto n = points.size();
   std::vector<double> dx(n - 1);
   std::vector<double> dy(dx.size());
-- 
2.43.0


From cd6148b3ab5627d59f71025419186433491c611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 59/86] fix: a binary, stream or metadata file that could not
 be written whole is reported

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 source/IOHaptics/src/IOStream.cpp | 2 +-
 source/Tools/src/OHMData.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index ee14bfe..495278e 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -93,7 +93,7 @@ auto IOBinary::writeFile(types::Haptics &haptic, const std::string &filePath) ->
   IOBinaryPrimitives::writeBitset(output, file);
 
   file.close();
-  return res;
+  return res && !file.fail(); // everything must be written
 }
 
 auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 527b5a0..6dfd2f0 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -58,7 +58,7 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
   }
 
   file.close();
-  return success;
+  return success && !file.fail(); // everything must be written
 }
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 08a9665..4a9d447 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -204,7 +204,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     }
   }
   file.close();
-  return true;
+  return !file.fail(); // everything must be written
 }
 
 [[nodiscard]] auto OHMData::getVersion() const -> short { return version; }
-- 
2.43.0


From 3c54a7ca1dd2033b70c2790f4ccaeb7ff3e2454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 60/86] fix: writing HJIF reports failure, and the decoder too

---
 source/Decoder/src/main.cpp       | 3 +--
 source/IOHaptics/include/IOJson.h | 2 +-
 source/IOHaptics/src/IOJson.cpp   | 8 +++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index f0c41d3..76cc0c8 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -100,6 +100,5 @@ auto main(int argc, char *argv[]) -> int {
   //  }
   //}
 
-  IOJson::writeFile(hapticFile, output);
-  return EXIT_SUCCESS;
+  return IOJson::writeFile(hapticFile, output) ? EXIT_SUCCESS : EXIT_FAILURE;
 }
diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index c500b45..9f1e8db 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -162,7 +162,7 @@ public:
   static auto extractSyncs(types::Haptics &haptic, rapidjson::Value &jsonSyncs,
                            rapidjson::Document &jsonTree) -> void;
 
-  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> void;
+  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> bool;
 
   static auto bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
   static auto bits2bytes(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index c3b1f39..80043d3 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1224,7 +1224,7 @@ auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vecto
   return IOJsonPrimitives::getVector(jsonVector, vector);
 }
 
-auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
+auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> bool {
   auto jsonTree = rapidjson::Document(rapidjson::kObjectType);
   if (versionCheck(haptic.getVersion(), false)) {
     jsonTree.AddMember("version",
@@ -1268,6 +1268,12 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   rapidjson::OStreamWrapper osw(file);
   rapidjson::Writer<rapidjson::OStreamWrapper> writer(osw);
   jsonTree.Accept(writer);
+  file.close();
+  if (file.fail()) {
+    std::cerr << filePath << ": Cannot write file!" << std::endl;
+    return false;
+  }
+  return true;
 }
 
 auto IOJson::extractPerceptions(types::Haptics &haptic, rapidjson::Value &jsonPerceptions,
-- 
2.43.0


From d2d0eacd145794d6509d04c880ff802027a1418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 61/86] fix: the encoder reports files that cannot be read or
 written, and success for HJIF input

---
 source/Encoder/src/main.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 2ce826e..68780c6 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -272,12 +272,12 @@ auto main(int argc, char *argv[]) -> int {
     hapticFile.addPerception(myPerception);
   } else if (ext == "hjif") {
     std::cout << "The HJIF file to encode : " << filename << std::endl;
-    IOJson::loadFile(filename, hapticFile);
+    codeExit = IOJson::loadFile(filename, hapticFile) ? EXIT_SUCCESS : EXIT_FAILURE;
   } else {
     codeExit = EXIT_FAILURE;
   }
 
-  if (codeExit == EXIT_FAILURE) {
+  if (codeExit != EXIT_SUCCESS) {
     help();
     return codeExit;
   }
@@ -295,9 +295,11 @@ auto main(int argc, char *argv[]) -> int {
     if (inputParser.cmdOptionExists("--packet_duration")) {
       packetDuration = std::stoi(inputParser.getCmdOption("--packet_duration"));
     }
-    IOStream::writeFile(hapticFile, output, packetDuration);
-  } else {
-    IOJson::writeFile(hapticFile, output);
+    if (!IOStream::writeFile(hapticFile, output, packetDuration)) {
+      codeExit = EXIT_FAILURE;
+    }
+  } else if (!IOJson::writeFile(hapticFile, output)) {
+    codeExit = EXIT_FAILURE;
   }
 
   return codeExit;
-- 
2.43.0


From fcceb0a9fb9d46631175f56aa5535482120b85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 62/86] fix: reading a path that is no readable file as a
 stream ends

---
 source/IOHaptics/src/IOStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 6dfd2f0..374355c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -127,6 +127,9 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     //  read paylaod
     IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
     byteCount += bytesToRead;
+    if (file.fail()) {
+      return false; // not a readable file
+    }
     bitset.push_back(bufPacket);
   }
   file.close();
-- 
2.43.0


From f0594a6f15c50eaad14cdfd9e51e915063951c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 63/86] fix: an AHAP event after the last point of a curve is
 not modulated by what lies past its end

---
 source/Encoder/src/AhapEncoder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..87748db 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -359,6 +359,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
       std::find_if(amplitudes->begin(), amplitudes->end(), [continuous](std::pair<int, double> a) {
         return a.first >= continuous.getPosition();
       });
+  // IF THE EVENT BEGINS AFTER THE LAST KEYFRAME, NO MODULATION
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
 
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
@@ -409,6 +413,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   auto first_kf_f = std::find_if(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
+  // IF THE EVENT BEGINS AFTER THE LAST KEYFRAME, NO MODULATION
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
 
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
-- 
2.43.0


From 78aa03522e353095ceb855c9ff23e948f17b8771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 64/86] fix: an AHAP event before the first point of a curve is
 not modulated by what lies before it

---
 source/Encoder/src/AhapEncoder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 87748db..bd0a04b 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -380,6 +380,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF NO KEYFRAME BEFORE, NO MODULATION
+      if (it == amplitudes->begin()) {
+        break;
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -440,6 +444,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF NO KEYFRAME BEFORE, NO MODULATION
+      if (it == frequencies->begin()) {
+        break;
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From ec2dbb5f789e1f666b6ca06687f311c1ea342fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 65/86] fix: the sharpness at the end of an AHAP event is added
 to the curve once

---
 source/Encoder/src/AhapEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index bd0a04b..8bba43b 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -451,7 +451,7 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-      freq = std::clamp(freq + base_freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
+      freq = std::clamp(freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       lastKeyframe.setFrequencyModulation(static_cast<int>(std::round(
           haptics::tools::genericNormalization(BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX,
                                                ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, freq))));
-- 
2.43.0


From 9a9bca01d0cb308a289c35da1e081e32f5639150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 66/86] fix: times of AHAP control points are rounded to ticks
 as those of events are

---
 source/Encoder/src/AhapEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 8bba43b..00cad7a 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -197,8 +197,9 @@ namespace haptics::encoder {
     std::pair<int, double> k;
     // TIME + curve offset
 
-    k.first = static_cast<int>((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
-                               (double)timescale);
+    k.first = static_cast<int>(
+        std::round((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
+                   (double)timescale));
     // VALUE
     k.second = kahap["ParameterValue"].GetDouble();
 
-- 
2.43.0


From 7196fce74b70371cd5c956b55f8d1aa60d7b4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 67/86] fix: AHAP patterns need not be listed in order of time

---
 source/Encoder/src/AhapEncoder.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 00cad7a..33d7481 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -115,6 +115,12 @@ namespace haptics::encoder {
     }
   }
 
+  auto isBefore = [](const std::pair<int, double> &p, const std::pair<int, double> &q) {
+    return p.first < q.first;
+  };
+  std::stable_sort(amplitudes.begin(), amplitudes.end(), isBefore);
+  std::stable_sort(frequencies.begin(), frequencies.end(), isBefore);
+
   for (auto &e : pattern) {
 
     if (e.HasMember("Event")) {
@@ -148,6 +154,10 @@ namespace haptics::encoder {
   types::Band myBand =
       types::Band(types::BandType::Transient, MIN_AHAP_FREQUENCY, MAX_AHAP_FREQUENCY);
   types::Effect transientEffect;
+  std::stable_sort(transients.begin(), transients.end(),
+                   [](const types::Effect &p, const types::Effect &q) {
+                     return p.getPosition() < q.getPosition();
+                   });
   for (types::Effect e : transients) {
     auto pos = e.getPosition();
     for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
-- 
2.43.0


From 97b6a9e1d53f73b571dba71b1de7dd681eb09466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 68/86] fix: malformed elements of an AHAP pattern are not
 accessed as what they are not

---
 source/Encoder/src/AhapEncoder.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 33d7481..827511b 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -96,7 +96,15 @@ namespace haptics::encoder {
 
   // FOR LOOP ON KEYFRAMES
   for (auto &e : pattern) {
+    if (!e.IsObject() || (e.HasMember("ParameterCurve") && !e["ParameterCurve"].IsObject()) ||
+        (e.HasMember("Event") && !e["Event"].IsObject())) {
+      std::cerr << "Invalid AHAP input file: invalid Pattern element" << std::endl;
+      return EXIT_FAILURE;
+    }
     if (e.HasMember("ParameterCurve")) {
+      if (!e["ParameterCurve"].HasMember("ParameterID")) {
+        continue;
+      }
       if (e["ParameterCurve"]["ParameterID"] == "HapticIntensityControl") {
         ret = extractKeyframes(e["ParameterCurve"].GetObject(), &amplitudes, timescale);
         if (ret != 0) {
@@ -123,7 +131,7 @@ namespace haptics::encoder {
 
   for (auto &e : pattern) {
 
-    if (e.HasMember("Event")) {
+    if (e.HasMember("Event") && e["Event"].HasMember("EventType")) {
       if (e["Event"]["EventType"] == "HapticTransient") {
         ret = extractTransients(e["Event"].GetObject(), &transients, &amplitudes, &frequencies,
                                 timescale);
@@ -199,7 +207,7 @@ namespace haptics::encoder {
   }
 
   for (auto &kahap : parameterCurve["ParameterCurveControlPoints"].GetArray()) {
-    if (!kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
+    if (!kahap.IsObject() || !kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
         !kahap.HasMember("ParameterValue") || !kahap["ParameterValue"].IsNumber()) {
       continue;
     }
@@ -241,6 +249,10 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!param.IsObject() || !param.HasMember("ParameterID") ||
+        !param.HasMember("ParameterValue") || !param["ParameterValue"].IsNumber()) {
+      continue;
+    }
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
@@ -327,6 +339,10 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!param.IsObject() || !param.HasMember("ParameterID") ||
+        !param.HasMember("ParameterValue") || !param["ParameterValue"].IsNumber()) {
+      continue;
+    }
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
-- 
2.43.0


From 75fd3750411ffc578b807edfa3b9932e41c00d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 69/86] fix: a repeat event within another one does not replace
 the whole timeline of an IVS file

---
 source/Encoder/src/IvsEncoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 7e91457..52a2d5d 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -79,20 +79,20 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     auto repeatTree = RepeatNode{nullptr, {}, {}};
     for (pugi::xml_node &repeatEvent : sortedRepeatEvents) {
       auto currentNode = RepeatNode{&repeatEvent, {}, {}};
-      RepeatNode &researchNode = repeatTree;
+      RepeatNode *researchNode = &repeatTree;
       bool continue_search = false;
       do {
-        if (researchNode.children.empty()) {
+        if (researchNode->children.empty()) {
           break;
         }
 
-        auto lastChild = researchNode.children.back();
+        auto &lastChild = researchNode->children.back();
         continue_search = isRepeatNested(lastChild.value, currentNode.value);
         if (continue_search) {
-          researchNode = lastChild;
+          researchNode = &lastChild;
         }
       } while (continue_search);
-      researchNode.children.push_back(currentNode);
+      researchNode->children.push_back(currentNode);
     }
 
     pugi::xml_node basisEffect = {};
-- 
2.43.0


From b0fed4f4de497ef6e9f0c92a897e600a80a241d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 70/86] fix: repeat events nested three deep in an IVS file
 lengthen the outer one by all they add

---
 source/Encoder/include/IvsEncoder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9cd34f6..6a5fbf0 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -140,6 +140,7 @@ private:
       auto myEffects_it = myEffects.begin();
       auto children_it = children.begin();
       int delay_tmp = 0;
+      int delay_before = 0;
       std::vector<types::Effect> linearized_effects;
       for (; myEffects_it < myEffects.end() && children_it < children.end();) {
         int repeat_position =
@@ -152,9 +153,10 @@ private:
           linearized_effects.push_back(e);
           myEffects_it++;
         } else {
+          delay_before = delay;
           delay_tmp = children_it->linearize(linearized_effects, delay);
-          duration += delay_tmp;
           delay += delay_tmp;
+          duration += delay - delay_before;
           children_it++;
         }
       }
@@ -165,9 +167,10 @@ private:
         linearized_effects.push_back(e);
       }
       for (; children_it < children.end(); children_it++) {
+        delay_before = delay;
         delay_tmp = children_it->linearize(linearized_effects, delay);
-        duration += delay_tmp;
         delay += delay_tmp;
+        duration += delay - delay_before;
       }
 
       for (int i = 0; i <= count; i++) {
-- 
2.43.0


From 2129f0fc5e21e4ace5f2bc3defa724edc8c69c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 71/86] fix: times of IVS files are not truncated to the tick
 before

---
 source/Encoder/src/IvsEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 52a2d5d..69ec612 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -34,6 +34,7 @@
 #include <Encoder/include/IvsEncoder.h>
 #include <Tools/include/Tools.h>
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <limits>
 
@@ -415,7 +416,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
 }
 
 auto IvsEncoder::millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int {
-  return static_cast<int>(static_cast<double>(milliseconds) * MS_2_S *
-                          static_cast<double>(timescale));
+  return static_cast<int>(std::round(static_cast<double>(milliseconds) * MS_2_S *
+                                     static_cast<double>(timescale)));
 }
 } // namespace haptics::encoder
-- 
2.43.0


From 705dfdb2120613ef1e8fb92960b17d67c9145934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 72/86] fix: the channels imported from an IVS file have
 identifiers of their own

---
 source/Encoder/src/IvsEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 69ec612..261eb64 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -58,7 +58,7 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     haptics::types::Channel myChannel;
     if (out.getChannelsSize() <= static_cast<size_t>(channelId)) {
       std::string timelineName = IvsEncoder::getName(&timeline);
-      myChannel = haptics::types::Channel(0, timelineName.append(" - ").append(date), 1, 1, 0);
+      myChannel = haptics::types::Channel(channelId, timelineName.append(" - ").append(date), 1, 1, 0);
       out.addChannel(myChannel);
     };
     myChannel = out.getChannelAt(channelId);
-- 
2.43.0


From 41fcc42fe26534c2762687063087387623554eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 73/86] fix: a fade of no length in an IVS file does not fade
 the whole effect

---
 source/Encoder/src/IvsEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 261eb64..dec30c9 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -200,7 +200,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   }
 
   int fadeDuration = IvsEncoder::getFadeTime(basisEffect);
-  if (fadeDuration != -1) {
+  if (fadeDuration > 0) {
     fadeDuration = IvsEncoder::millisecondsToTimeScale(fadeDuration, timescale);
     int fadeTime = duration - fadeDuration;
 
-- 
2.43.0


From ed6139189e6a13914d9bd941e876b1e82c3fd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 74/86] fix: launch events of an IVS file need not be listed in
 order of time

---
 source/Encoder/include/IvsEncoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 6a5fbf0..c158547 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -118,7 +118,7 @@ private:
         }
       }
 
-      auto it = myEffects.end();
+      auto it = myEffects.begin();
       auto it_effects = myEffects.begin();
       int effectPosition = myEffect.getPosition();
       for (; it_effects < myEffects.end(); it_effects++) {
-- 
2.43.0


From 1bb77e8c6fd884c5db67f8ffcf9293e8983ed9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 75/86] fix: experiences without a timescale are synthesized
 with the default one

---
 source/Synthesizer/src/Helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 04b8a82..8327fd9 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -49,7 +49,7 @@ namespace haptics::synthesizer {
   types::Effect effect;
   double maxLength = 0;
   double currentLength = 0;
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t perceptionIndex = 0; perceptionIndex < haptic.getPerceptionsSize();
        perceptionIndex++) {
     perception = haptic.getPerceptionAt((int)perceptionIndex);
@@ -95,7 +95,7 @@ namespace haptics::synthesizer {
   }
   std::vector<std::vector<double>> amplitudes;
 
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-- 
2.43.0


From 398f17c9759cadc103a147dcade380fa6c86c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 76/86] fix: the padding of the synthesizer is in milliseconds
 in every timescale

---
 source/Synthesizer/src/Helper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 8327fd9..debd6cc 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -99,7 +99,9 @@ namespace haptics::synthesizer {
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-      auto sampleCount = static_cast<uint32_t>(std::round(fs * (timeLength + 2 * pad) / timescale));
+      // the padding is in milliseconds, the length in ticks
+      auto sampleCount = static_cast<uint32_t>(
+          std::round(fs * (timeLength / timescale + 2 * pad * MS_2_S)));
       myChannel = haptic.getPerceptionAt((int)i).getChannelAt((int)j);
       std::vector<double> channelAmp = myChannel.EvaluateChannel(sampleCount, fs, pad, timescale);
       const double perceptionUnitFactor =
-- 
2.43.0


From 95f588be6e413f0e1b6592aee66b9afb349df5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 77/86] fix: the synthesizer reports files that cannot be read
 or written

---
 source/Synthesizer/src/main.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index 477b6c3..aa62a5e 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -132,8 +132,8 @@ auto main(int argc, char *argv[]) -> int {
     if (!IOStream::readFile(filename, hapticFile)) {
       return EXIT_FAILURE;
     }
-  } else {
-    IOJson::loadFile(filename, hapticFile);
+  } else if (!IOJson::loadFile(filename, hapticFile)) {
+    return EXIT_FAILURE;
   }
 
   hapticFile.linearize();
@@ -149,7 +149,9 @@ auto main(int argc, char *argv[]) -> int {
     haptics::tools::OHMData ohm = hapticFile.extractMetadataToOHM(relativeFilename);
     auto ohmPath = outputPath;
     ohmPath.replace_extension(".ohm");
-    ohm.writeFile(ohmPath.string());
+    if (!ohm.writeFile(ohmPath.string())) {
+      return EXIT_FAILURE;
+    }
   }
 
   return EXIT_SUCCESS;
-- 
2.43.0


From 5e671bdee0d9e21e4094090fc3e6508547843efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 78/86] fix: the length of a wavelet band includes its last
 block

---
 source/Types/src/Band.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 3b4a008..1ac766d 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -272,6 +272,9 @@ auto Band::getBandTimeLength(unsigned int timescale) -> double {
   if (this->effects.empty()) {
     return 0;
   }
+  if (this->bandType == BandType::WaveletWave) {
+    return this->effects.back().getPosition() + this->getBlockLengthOrDefault();
+  }
   return this->effects.back().getPosition() +
          this->effects.back().getEffectTimeLength(this->getBandType(),
                                                   Band::getTransientDuration(timescale));
-- 
2.43.0


From 14cab589a1b21d13cda7b199003cde8242b3ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 79/86] fix: writing a WAV file reports failure, and
 experiences without channels do not end the synthesizer

---
 source/Tools/src/WavParser.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 7d29bf1..0272553 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -80,7 +80,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
   format.channels = 1;
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (drwav_init_file_write(&wav, filename.c_str(), &format, nullptr) == 0U) {
+    return false;
+  }
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size());
   std::transform(buff.begin(), buff.end(), b_int.begin(), [](double v) -> uint16_t {
@@ -93,13 +95,17 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
     }
     return (uint16_t)v_scaled;
   });
-  drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
+  const auto written = drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
   drwav_uninit(&wav);
-  return true;
+  return written == b_int.size();
 }
 
 auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff,
                          int sampleRate) -> bool {
+  if (buff.empty()) {
+    std::cerr << "No output channel" << std::endl;
+    return false;
+  }
   size_t s = buff.at(0).size();
   for (uint32_t i = 1; i < buff.size(); i++) {
     if (buff.at(i).size() != s) {
@@ -114,7 +120,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
   format.channels = buff.size();
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (drwav_init_file_write(&wav, filename.c_str(), &format, nullptr) == 0U) {
+    return false;
+  }
 
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size() * buff.at(0).size());
@@ -132,9 +140,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
     }
     c++;
   }
-  drwav_write_pcm_frames(&wav, b_int.size() / buff.size(), b_int.data());
+  const auto written = drwav_write_pcm_frames(&wav, s, b_int.data());
   drwav_uninit(&wav);
-  return true;
+  return written == s;
 }
 
 auto WavParser::getSamplerate() const -> uint32_t { return sampleRate; }
-- 
2.43.0


From 9e50f4772accba7b8a37a2e206e3895c38053bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 80/86] fix: a file that is no WAV file is not encoded as an
 experience without channels

---
 source/Encoder/src/PcmEncoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index e3d4f4c..2b941cd 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -53,7 +53,9 @@ namespace haptics::encoder {
 auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const unsigned int timescale,
                         Perception &out) -> int {
   WavParser wavParser;
-  wavParser.loadFile(filename);
+  if (!wavParser.loadFile(filename)) {
+    return EXIT_FAILURE;
+  }
   size_t numChannels = wavParser.getNumChannels();
   Channel myChannel;
   auto channelsSize = out.getChannelsSize();
-- 
2.43.0


From 7139388506d9d37b6f8309dc2e3bf5c3ff87594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 81/86] fix: the encoder takes the cutoff frequency and block
 length it is given without a bitrate or budget too

---
 source/Encoder/src/main.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 68780c6..29af943 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -224,8 +224,10 @@ auto main(int argc, char *argv[]) -> int {
           }
 
         } else {
-          config = haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet,
-                                                                           enable_vectorial);
+          config = haptics::encoder::EncodingConfig::generateConfigBudget(
+              haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet,
+              enable_vectorial,
+              blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
@@ -264,8 +266,9 @@ auto main(int argc, char *argv[]) -> int {
             budget.value(), cutoff.value(), enable_wavelet, enable_vectorial);
       }
     } else {
-      config =
-          haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet, enable_vectorial);
+      config = haptics::encoder::EncodingConfig::generateConfigBudget(
+          haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet, enable_vectorial,
+          blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
     }
     codeExit =
         PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
-- 
2.43.0


From 7122674162ceb95986e3297c250404a9f3cfe702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 82/86] fix: the psychohaptic model does not keep the block
 length of the first signal it is given

---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 9c5f552..465be71 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -81,9 +81,9 @@ auto PsychohapticModel::getSMR(std::vector<double> &block) -> modelResult {
     i = i * sqrt(2 * (double)bl);
   }
 
-  static double correction = 1 / sqrt((double)bl);
+  const double correction = 1 / sqrt((double)bl);
   std::transform(spect_complex.begin(), spect_complex.end() - (long long)bl, spect_mag.begin(),
-                 [](std::complex<double> a) {
+                 [correction](std::complex<double> a) {
                    return LOGFACTOR_SPECT *
                           log10(correction * sqrt(a.real() * a.real() + a.imag() * a.imag()));
                  });
-- 
2.43.0


From 9687db723214942bbee66f0922895747e08673bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 83/86] fix: a damaged stream unit or packet is refused instead
 of read beyond its end

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 11 +++++
 source/IOHaptics/include/IOStream.h           |  2 +
 source/IOHaptics/src/IOStream.cpp             | 41 +++++++++++++++----
 3 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 822d2f0..7671311 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -41,6 +41,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -141,6 +142,7 @@ public:
   template <size_t length>
   static auto readFloatNBits(std::vector<bool> &bitstream, int &startIdx, float minValue,
                              float maxValue) -> float {
+    requireBits(bitstream, startIdx, static_cast<int>(length));
     std::string str;
     for (auto i = startIdx; i < static_cast<int>(startIdx + length); i++) {
       if (bitstream[i]) {
@@ -164,7 +166,14 @@ public:
       bitstream.push_back(c == '1');
     }
   }
+  // nothing can be read beyond the end of what was received
+  static auto requireBits(const std::vector<bool> &bitstream, int startIdx, int length) -> void {
+    if (static_cast<size_t>(startIdx) + static_cast<size_t>(length) > bitstream.size()) {
+      throw std::out_of_range("truncated bitstream");
+    }
+  }
   static auto readUInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
+    requireBits(bitstream, startIdx, length);
     std::string tsBits;
     for (int i = startIdx; i < startIdx + length; i++) {
       if ((bitstream[i])) {
@@ -183,6 +192,7 @@ public:
     if (bitstream.empty()) {
       return EXIT_FAILURE;
     }
+    requireBits(bitstream, startIdx, length);
     if (bitstream[startIdx]) {
       bitstream.flip();
       return -(readUInt(bitstream, startIdx, length) + 1);
@@ -191,6 +201,7 @@ public:
   }
 
   static auto readString(std::vector<bool> bitstream, int &startIdx, int length) -> std::string {
+    requireBits(bitstream, startIdx, BYTE_SIZE * length);
     std::string res;
     for (int i = startIdx; i < startIdx + (BYTE_SIZE * length); i += BYTE_SIZE) {
       std::string bitsStr;
diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 705d6c9..de09b48 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -226,6 +226,8 @@ private:
   static auto readPacketTS(std::vector<bool> bitstream) -> int;
   static auto readPacketLength(std::vector<bool> &bitstream) -> int;
 
+  static auto readMIHSPacketContent(std::vector<bool> &packet, StreamReader &sreader, CRC &crc)
+      -> bool;
   static auto readMIHSPacketType(std::vector<bool> &packet) -> MIHSPacketType;
   static auto readMIHSPacketHeader(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool;
   static auto readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 374355c..66debcf 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -253,26 +253,39 @@ auto IOStream::silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) ->
 
 auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc) -> bool {
   int index = 0;
+  if (mihsunit.size() < static_cast<size_t>(UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION +
+                                            UNIT_LENGTH + UNIT_RESERVED)) {
+    return false; // truncated
+  }
   IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_TYPE);
   // MIHSUnitType unitType = static_cast<MIHSUnitType>(unitTypeInt);
   int syncInt = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_SYNC);
   bool sync = syncInt == 0;
-  if (sreader.waitSync && sync) {
-    sreader.waitSync = false;
-  }
-  sreader.layer = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LAYER);
+  int layer = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LAYER);
 
-  sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
-  int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
+  int packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
+  auto unitLength = static_cast<unsigned int>(
+      IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH));
   index += UNIT_RESERVED;
 
-  const int unitEnd = index + unitLength;
+  if (unitLength > (mihsunit.size() - index) / BYTE_SIZE) {
+    return false; // truncated
+  }
+  const int unitEnd = index + static_cast<int>(unitLength) * BYTE_SIZE;
+  if (sreader.waitSync && sync) {
+    sreader.waitSync = false;
+  }
+  sreader.layer = layer;
+  sreader.packetDuration = packetDuration;
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   while (index < unitEnd) {
     if (!readMIHSPacket(packets, sreader, crc)) {
       return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
+    if (index > static_cast<int>(mihsunit.size())) {
+      return false; // the packet is longer than its unit
+    }
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   }
   sreader.time += sreader.packetDuration;
@@ -688,11 +701,22 @@ auto IOStream::writeMIHSPacketHeader(MIHSPacketType mihsPacketType, int payloadS
   return true;
 }
 auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, CRC &crc) -> bool {
+  try {
+    return readMIHSPacketContent(packet, sreader, crc);
+  } catch (const std::exception &) {
+    return false; // the packet does not hold what it announces
+  }
+}
+
+auto IOStream::readMIHSPacketContent(std::vector<bool> &packet, StreamReader &sreader, CRC &crc)
+    -> bool {
   MIHSPacketType mihsPacketType = readMIHSPacketType(packet);
   int index = H_MIHS_PACKET_TYPE;
   sreader.packetLength = IOBinaryPrimitives::readUInt(packet, index, H_PAYLOAD_LENGTH) * BYTE_SIZE;
+  IOBinaryPrimitives::requireBits(packet, index, H_RESERVED + static_cast<int>(sreader.packetLength));
   index += H_RESERVED;
-  std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
+  std::vector<bool> payload =
+      std::vector<bool>(packet.begin() + index, packet.begin() + index + sreader.packetLength);
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
     return readTiming(sreader, payload);
@@ -1447,6 +1471,7 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   int bodyPartMask = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_BODY_PART_MASK);
   refDevice.setBodyPartMask(static_cast<uint32_t>(bodyPartMask));
 
+  IOBinaryPrimitives::requireBits(bitstream, idx, REFDEV_OPT_FIELDS);
   std::vector<bool> mask(bitstream.begin() + idx, bitstream.begin() + idx + REFDEV_OPT_FIELDS);
   idx += REFDEV_OPT_FIELDS;
   int maskIdx = 0;
-- 
2.43.0


From 1813edd36c036d2ce63b2e00b41292bcecbb2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 84/86] fix: experience metadata that is refused changes
 nothing

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 66debcf..2622aa0 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -924,22 +924,17 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
 
   int versionLength = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_VERSION);
   std::string version = IOBinaryPrimitives::readString(bitstream, index, versionLength);
-  haptic.setVersion(version);
 
   int profileLength = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_PROFILE_SIZE);
   std::string profile = IOBinaryPrimitives::readString(bitstream, index, profileLength);
-  haptic.setProfile(profile);
 
   int level = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_LEVEL);
-  haptic.setLevel(level);
 
   int dateLength = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_DATE);
   std::string date = IOBinaryPrimitives::readString(bitstream, index, dateLength);
-  haptic.setDate(date);
 
   int descLength = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_DESC_SIZE);
   std::string description = IOBinaryPrimitives::readString(bitstream, index, descLength);
-  haptic.setDescription(description);
 
   // read number of perception, not used but could be for check
   IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_PERC_COUNT);
@@ -950,6 +945,11 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
   if (!readListObject(avaratListBits, avatarCount, avatarList)) {
     return false;
   }
+  haptic.setVersion(version);
+  haptic.setProfile(profile);
+  haptic.setLevel(level);
+  haptic.setDate(date);
+  haptic.setDescription(description);
   for (auto avatar : avatarList) {
     bool known = false; // the initialization may be repeated
     for (auto i = 0; i < static_cast<int>(haptic.getAvatarsSize()); i++) {
-- 
2.43.0


From 2e96e3e478b036b919ce9b1d1b96d614077162fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 85/86] fix: block lengths of wavelet bands survive the binary
 file at any time scale

---
 source/IOHaptics/src/IOBinaryBands.cpp | 38 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index fd7d50a..246bd85 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -39,19 +39,32 @@
 
 namespace haptics::io {
 
+// the length of a wavelet block is coded as a power of two (at least 16) of samples at the upper
+// frequency limit of the band
+static constexpr int MAX_BLOCK_LENGTH_CODE = 26;
+
+static auto wavelet_block_ticks(int code, unsigned int timescale, int upperFrequencyLimit)
+    -> int64_t {
+  if (upperFrequencyLimit <= 0) {
+    return 0;
+  }
+  return (static_cast<int64_t>(1) << (code + 4)) * timescale / upperFrequencyLimit;
+}
+
 auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
                                    std::vector<bool> &unusedBits, const unsigned int timescale)
     -> bool {
   auto bandType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BAND_TYPE>(file, unusedBits);
   band.setBandType(static_cast<types::BandType>(bandType));
-  int blockLength_samp = 0;
+  int blockLength_code = 0;
   if (band.getBandType() == types::BandType::Curve) {
     auto curveType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_CURVE_TYPE>(file, unusedBits);
     band.setCurveType(static_cast<types::CurveType>(curveType));
   } else if (band.getBandType() == types::BandType::WaveletWave) {
-    auto blockLength_code =
-        IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
-    blockLength_samp = static_cast<int>(pow(2, blockLength_code + 4));
+    blockLength_code = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
+    if (blockLength_code > MAX_BLOCK_LENGTH_CODE) {
+      return false;
+    }
   }
 
   auto lowerFrequencyLimit =
@@ -63,8 +76,8 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   band.setUpperFrequencyLimit(static_cast<int>(upperFrequencyLimit));
 
   if (band.getBandType() == types::BandType::WaveletWave) {
-    auto blockLength_ticks = static_cast<int>(blockLength_samp * timescale / upperFrequencyLimit);
-    band.setBlockLength(blockLength_ticks);
+    auto blockLength_ticks = wavelet_block_ticks(blockLength_code, timescale, upperFrequencyLimit);
+    band.setBlockLength(static_cast<int>(blockLength_ticks));
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
   for (unsigned int i = 0; i < effectCount; i++) {
@@ -86,12 +99,17 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_CURVE_TYPE>(curveType, output);
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto bl_ticks = band.getBlockLength().value();
-    auto blockLength_samples =
-        (int)((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit());
-    auto blockLength_code = (int)log2(blockLength_samples) - 4;
-    if (blockLength_code < 0) {
+    // the longest block that readBandHeader turns into at most bl_ticks ticks
+    const auto fits = [&](int code) {
+      return wavelet_block_ticks(code, timescale, band.getUpperFrequencyLimit()) <= bl_ticks;
+    };
+    if (!fits(0)) {
       std::cerr << "wavelet blocklength too small" << std::endl;
     }
+    int blockLength_code = 0;
+    while (blockLength_code < MAX_BLOCK_LENGTH_CODE && fits(blockLength_code + 1)) {
+      blockLength_code++;
+    }
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_BLK_LEN>(blockLength_code, output);
   }
 
-- 
2.43.0


From d38f929d00b78015832215becc3cbdf323565d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 86/86] fix: identifiers given to effects of a stream stay
 within 16 bits

---
 source/IOHaptics/src/IOStream.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2622aa0..08ba5b8 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1959,12 +1959,7 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
-      int nextId = 0;
-      if (!swriter.effectsId.empty()) {
-        nextId = *max_element(swriter.effectsId.begin(), swriter.effectsId.end()) + 1;
-      }
-      effect.setId(nextId);
-      swriter.effectsId.push_back(nextId);
+      setNextEffectId(swriter.effectsId, effect);
     }
 
     std::vector<bool> bufEffect = std::vector<bool>();
@@ -2745,12 +2740,7 @@ auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
   return effectsId;
 }
 auto IOStream::setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool {
-  int nextId = 0;
-  if (!effectsId.empty()) {
-    nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
-  }
-  effect.setId(nextId);
-  effectsId.push_back(nextId);
+  effect.setId(getNextEffectId(effectsId));
   return true;
 }
 auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
@@ -2758,6 +2748,13 @@ auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
   if (!effectsId.empty()) {
     nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
   }
+  if (nextId >= (1 << EFFECT_ID)) {
+    // larger identifiers do not fit in the field: take the smallest one that is free
+    nextId = 0;
+    while (std::find(effectsId.begin(), effectsId.end(), nextId) != effectsId.end()) {
+      nextId++;
+    }
+  }
   effectsId.push_back(nextId);
   return nextId;
 }
-- 
2.43.0

