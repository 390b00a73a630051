From f0b409b6adabad827ed3085044ba7a0955944e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 01/35] fix: SegmentedEnvelope without segments read past the
 end of an empty vector

---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..070c46b 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -188,7 +188,7 @@ private:
         }
 
         if (m_currentSegmentIndex >= m_segments.size())
-            m_currentValue = m_segments.back().targetValue;
+            m_currentValue = m_endValue;
     }
 };
 
-- 
2.43.0


From ad36ad9545a81fc0bc07c9baba8aace49cde39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 02/35] fix: SegmentedEnvelope::reset() did not restore the
 start value of the first ramp

---
 include/envelopes/hart_segmentedenvelope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 070c46b..7136da9 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
-- 
2.43.0


From 4b335f69e1b0c3bb341ddfe8c028db8378eb4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 03/35] fix: prepare attached envelopes, so that they run at
 the host's sample rate

---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..787da2b 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -230,6 +230,7 @@ public:
         {
             const int paramId = item.first;
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
         }
 
         hassert (m_envelopes.size() == m_envelopeBuffers.size());
-- 
2.43.0


From 39d6f5b673a658dfcfe399721497f0e3dde331b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 04/35] fix: reset attached envelopes together with the effect
 they automate

---
 include/dsp/hart_dsp.hpp        | 11 +++++++++++
 include/hart_process_audio.hpp  |  2 +-
 include/signals/hart_signal.hpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 787da2b..2134628 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -216,6 +216,17 @@ public:
         return m_envelopes.find (paramId) != m_envelopes.end();
     }
 
+    /// @brief Resets all the attached envelopes and the effect itself to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        for (auto& item : m_envelopes)
+            item.second->reset();
+
+        reset();
+    }
+
     /// @brief Prepares all the attached envelopes and the effect itself for processing
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
     /// If you're making something that owns an instance of a DSP and needs it to generate audio,
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From 26e10e9b84918c39be9b736f3723e89aca314b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 05/35] fix: withEnvelope() with a temporary envelope did not
 compile

---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 2134628..6f782f3 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes.emplace (paramId, envelope.copy());  // Envelope is abstract and has no way to move out of a base reference
         return *this;
     }
 
-- 
2.43.0


From 089d825a2d5e38b867c2e99bea1cf5ec2207a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 06/35] fix: withEnvelope() kept the first envelope of a
 parameter instead of the last

---
 include/dsp/hart_dsp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 6f782f3..edab664 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());  // Envelope is abstract and has no way to move out of a base reference
+        m_envelopes[paramId] = envelope.copy();  // Envelope is abstract and has no way to move out of a base reference
         return *this;
     }
 
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From d86cc9d0580dec2668cc0e5bc9948b75df490f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 07/35] fix: assigning an effect merged automation envelopes
 instead of replacing them

---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index edab664..21574b8 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From 36c1ed1c8b0a9d0292e1b6cfb21eda4263f54b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 08/35] fix: effects got a full block of envelope values for a
 shorter last block

---
 include/dsp/hart_dsp.hpp    | 7 ++++++-
 include/dsp/hart_gaindb.hpp | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 21574b8..2e3b088 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -238,6 +238,7 @@ public:
     void prepareWithEnvelopes (double sampleRateHz, size_t numInputChannels, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
         m_envelopeBuffers.clear();  // TODO: Remove only unused buffers
+        m_maxBlockSizeFrames = maxBlockSizeFrames;
 
         for (auto& item : m_envelopes)
         {
@@ -281,7 +282,10 @@ public:
             // Sanity checks
             hassert (supportsEnvelopeFor (paramId) && "Envelope for this id is unsupported, yet there's an envelope buffer allocated for it");
             hassert (hasEnvelopeFor (paramId) && "Envelope for this param id is not attached, yet there's an envelope buffer allocated for it");
-            hassert (input.getNumFrames() <= envelopeBuffer.size() && "Envelope Buffers were not allocated properly for this buffer size");
+            hassert (input.getNumFrames() <= m_maxBlockSizeFrames && "Envelope Buffers were not allocated properly for this buffer size");
+
+            // The last block may be shorter than the others
+            envelopeBuffer.resize (input.getNumFrames());
 
             // Render envelope values
             getValues (paramId, envelopeBuffer.size(), envelopeBuffer);
@@ -297,6 +301,7 @@ public:
 private:
     std::unordered_map<int, std::unique_ptr<Envelope>> m_envelopes;
     EnvelopeBuffers m_envelopeBuffers;
+    size_t m_maxBlockSizeFrames = 0;
 
     /// @brief Gets sample-accurate automation envelope values for a specific parameter
     /// @param[in] paramId Some ID that your subclass understands
diff --git a/include/dsp/hart_gaindb.hpp b/include/dsp/hart_gaindb.hpp
index 66f2a32..7c1277f 100644
--- a/include/dsp/hart_gaindb.hpp
+++ b/include/dsp/hart_gaindb.hpp
@@ -52,8 +52,8 @@ public:
         if (hasGainEnvelope)
         {
             auto& gainEnvelopeValuesDb = envelopeBuffers. at(Params::gainDb);
-            hassert (gainEnvelopeValuesDb.size() == m_gainEnvelopeValuesLinear.size());
-            
+            m_gainEnvelopeValuesLinear.resize (gainEnvelopeValuesDb.size());
+
             for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)
                 m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);
 
-- 
2.43.0


From d093fc194e1d247c0285219d11c3c6e60725863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 09/35] fix: stock matchers accepted audio containing NaN
 samples

---
 include/matchers/hart_equalsto.hpp   | 2 +-
 include/matchers/hart_peaksat.hpp    | 6 +++---
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..554b81c 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,7 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        return x != y && ! (std::abs (x - y) <= m_toleranceLinear);  // NaN is never equal
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..79e5cc5 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -1,7 +1,7 @@
 #pragma once
 
 #include <algorithm>  // max()
-#include <cmath>  // abs()
+#include <cmath>  // abs(), isnan()
 #include <iomanip>
 #include <sstream>
 
@@ -47,7 +47,7 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (currentPeakLinear > observedPeakLinear)
+                if (currentPeakLinear > observedPeakLinear || std::isnan (currentPeakLinear))
                 {
                     observedPeakLinear = currentPeakLinear;
                     frameOfObservedPeakLinear = frame;
@@ -56,7 +56,7 @@ public:
             }
         }
 
-        if (std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
+        if (observedPeakLinear != m_targetLinear && ! (std::abs (observedPeakLinear - m_targetLinear) <= m_toleranceLinear))
         {
             m_failedFrame = frameOfObservedPeakLinear;
             m_failedChannel = (int) channelOfObservedPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..864ac4a 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // NaN is never below
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 4e23bcb23e3a0a802dc6938135a7dddd292f37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 10/35] fix: a failing check kept the checks after it from
 seeing that block

---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..e26d74b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -484,6 +484,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -533,11 +535,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From e658b120ce4c2a144bacc5ff7ffd0022878d95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 11/35] fix: wrong timestamps in failure reports of full signal
 checks

---
 include/hart_process_audio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index e26d74b..3ba8e89 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -391,6 +391,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
+        offsetFrames = 0;  // Full signal checks see the audio from its very start
         const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
-- 
2.43.0


From 068b767c4d15164dbf273a7d5d70e8b5b1d40ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 12/35] fix: full signal matchers were prepared for a smaller
 block than they get

---
 include/hart_process_audio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 3ba8e89..cb46801 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,7 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From 12c3e90e732045210de292641db2702c09830558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 13/35] fix: check that the tested DSP supports the channel
 layout and the (default) sample rate

---
 include/hart_process_audio.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index cb46801..3fd9cd8 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,7 +351,12 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
-- 
2.43.0


From f73e38d4fc73a3c07e5d59c1a569a0d52f92047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 14/35] fix: signals were asked for channel counts and sample
 rates they do not support

---
 include/signals/hart_signal.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..f2ff8a6 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,6 +197,12 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Signal does not support this sample rate");
+
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-- 
2.43.0


From 41386b090bbe09be439878833e510cc4a97bcf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 15/35] fix: EqualsTo reported -120 dB for every negative
 expected value

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 554b81c..c7e2f08 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From 5f1c32d11bcbc123a03a7d87a128ed03ef1fc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 16/35] fix: looped WavFile read past the end of its audio when
 looping within a block

---
 include/signals/hart_wavfile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..c5a6a92 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -107,7 +107,10 @@ public:
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
+            {
                 m_wavOffsetFrames %= m_wavFrames->getNumFrames();
+                frameInWavBuffer = m_wavOffsetFrames;
+            }
         }
 
         while (frameInOutputBuffer < numFrames)
-- 
2.43.0


From 09b35d8418114fe897ab69c816b9cbbaa4c9d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 17/35] fix: WavFile refused to fill fewer channels than the
 wav file has

---
 include/signals/hart_wavfile.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index c5a6a92..8bf477b 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>  // min()
 #include <memory>
 #include <string>
 
@@ -82,7 +83,7 @@ public:
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
         // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (! supportsNumChannels (numOutputChannels))
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -91,15 +92,16 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        // TODO: Add support for number of channels different from the wav file
+        // TODO: Add support for number of channels larger than in the wav file
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
+        const size_t numChannels = std::min (output.getNumChannels(), m_wavNumChannels);
         size_t frameInOutputBuffer = 0;
         size_t frameInWavBuffer = m_wavOffsetFrames;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
 
             ++frameInOutputBuffer;
@@ -117,7 +119,7 @@ public:
         {
             hassert (m_loop == Loop::no);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From 686d58c23b5b39f6c7bc2b04e10f53daad0d4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 18/35] fix: SineSweep shorter than half a frame never ended

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From 067de44f4992d0d17257b107142628cfa0b728ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 19/35] fix: SineSweep, PeaksBelow and GainLinear printed wrong
 or missing settings

---
 include/dsp/hart_gainlinear.hpp      | 2 +-
 include/matchers/hart_peaksbelow.hpp | 4 +++-
 include/signals/hart_sine_sweep.hpp  | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 864ac4a..ee7aaf1 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,6 +27,7 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
+        m_toleranceLinear ((SampleType) toleranceLinear),
         m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
     {
     }
@@ -78,13 +79,14 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
 
 private:
     const SampleType m_thresholdDb;
+    const SampleType m_toleranceLinear;
     const SampleType m_thresholdLinear;
 
     size_t m_failedFrame = 0;
diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index c1dd10d..769c0aa 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,8 +189,9 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
-            << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
+            << (m_loop == Loop::yes ? ", Loop::yes, " : ", Loop::no, ")
+            << radPrecision << m_initialPhaseRadians << "_rad)";
     }
 
     HART_SIGNAL_DEFINE_COPY_AND_MOVE (SineSweep);
-- 
2.43.0


From fda9877460a833362fde1cc47c211669d2b43e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 20/35] fix: AudioBuffer::getMagnitude() let overflowing frame
 ranges through

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..898d20e 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames == 0 || numFrames > m_numFrames || startFrame > m_numFrames - numFrames)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames == 0 || numFrames > m_numFrames || startFrame > m_numFrames - numFrames)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From a9371ad83912e40639a57775b72b2e5223a78a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 21/35] fix: appending between empty AudioBuffers indexed an
 empty vector

---
 include/hart_audio_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 898d20e..3032fea 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -112,7 +112,7 @@ public:
 
         for (size_t channel = 0; channel < m_numChannels; ++channel)
         {
-            SampleType* newChannelStart = &combinedFrames[channel * (thisNumFrames + otherNumFrames)];
+            SampleType* newChannelStart = combinedFrames.data() + channel * (thisNumFrames + otherNumFrames);
             std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);
             std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);
         }
-- 
2.43.0


From 7f7ecd8b2fd41931e5b2110031685854a6f83095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 22/35] fix: plots drew every further channel after the end of
 the one before it

---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..ad7faeb 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,11 +44,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
         auto &inputSignalLine = inputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
         {
@@ -57,11 +56,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
         auto &outputSignalLine = outputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
         {
-- 
2.43.0


From f6e485bfe8ccce758cee3b2e4989d0fde8879183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 23/35] fix: a failed assertTrue()/assertFalse() kept the
 output from being saved and other checks from being judged

---
 include/hart_process_audio.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 3fd9cd8..125be9f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,6 +351,8 @@ public:
             check.shouldSkip = false;
         }
 
+        m_assertFailureMessages.clear();
+
         if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
             HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
 
@@ -406,6 +408,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (! m_assertFailureMessages.empty())
+            throw hart::TestAssertException (m_assertFailureMessages.front());
+
         return std::move (m_processor);
     }
 
@@ -444,6 +449,7 @@ private:
 
     std::vector<Check> perBlockChecks;
     std::vector<Check> fullSignalChecks;
+    std::vector<std::string> m_assertFailureMessages;
 
     std::string m_saveOutputPath;
     Save m_saveOutputMode = Save::never;
@@ -520,7 +526,7 @@ private:
                     if (check.shouldPass)
                         appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
 
-                    throw hart::TestAssertException (std::string (stream.str()));
+                    m_assertFailureMessages.emplace_back (stream.str());
                 }
                 else
                 {
@@ -538,7 +544,6 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
-- 
2.43.0


From 3f920cf0aedb728ab89a91272162bfc2a8f001d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 24/35] fix: an exception thrown by one task terminated the
 whole run

---
 include/hart_test_registry.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..b3e5ec9 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>  // shuffle()
+#include <exception>
 #include <iostream>
 #include <random>
 #include <string>
@@ -136,6 +137,11 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = e.what();
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From 7d87102cd353d567cecbd334d8ffb38c6f509954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 25/35] fix: HART_REQUIRES_DATA_PATH_ARG never noticed a
 missing --data-root-path

---
 include/hart_cliconfig.hpp | 2 +-
 include/hart_utils.hpp     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hart_cliconfig.hpp b/include/hart_cliconfig.hpp
index 2ebd8e7..87de222 100644
--- a/include/hart_cliconfig.hpp
+++ b/include/hart_cliconfig.hpp
@@ -81,7 +81,7 @@ public:
 private:
     CLI::App app { "HART" };
 
-    std::string m_dataRootPath = ".";
+    std::string m_dataRootPath = "";
     std::string m_tags = "";
     uint_fast32_t m_seed = 0;
     bool m_runGeneratorsNotTests = false;
diff --git a/include/hart_utils.hpp b/include/hart_utils.hpp
index 47bbe9d..ca04b4b 100644
--- a/include/hart_utils.hpp
+++ b/include/hart_utils.hpp
@@ -120,7 +120,8 @@ inline static std::string toAbsolutePath (const std::string& path)
     if (isAbsolutePath(path))
         return path;
 
-    return CLIConfig::getInstance().getDataRootPath() + '/' + path;
+    const std::string dataRootPath = CLIConfig::getInstance().getDataRootPath();
+    return (dataRootPath.empty() ? "." : dataRootPath) + '/' + path;
 }
 
 /// @brief `std::unordered_map::contains()` replacement for C++11
-- 
2.43.0


From 29591354e9ddff522b3c18882621232c298a1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 26/35] fix: looping a wav file without frames failed an
 internal assertion

---
 include/signals/hart_wavfile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 8bf477b..064b848 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -117,7 +117,7 @@ public:
 
         while (frameInOutputBuffer < numFrames)
         {
-            hassert (m_loop == Loop::no);
+            hassert (m_loop == Loop::no || m_wavFrames->getNumFrames() == 0);
 
             for (size_t channel = 0; channel < numChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
-- 
2.43.0


From 694154c82df9fa8e8cb1220d6f3e9a28c4b84510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 27/35] fix: opening a wav file with an absurd frame count
 overflowed the sample buffer's size

---
 dependencies/dr_libs/dr_wav.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 46d0cbf..45b872b 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -8053,6 +8053,11 @@ DRWAV_PRIVATE drwav_int16* drwav__read_pcm_frames_and_close_s16(drwav* pWav, uns
 
     DRWAV_ASSERT(pWav != NULL);
 
+    if (pWav->totalPCMFrameCount > DRWAV_SIZE_MAX / (pWav->channels * sizeof(drwav_int16))) {
+        drwav_uninit(pWav);
+        return NULL;    /* File's too big. The multiplication below would overflow. */
+    }
+
     sampleDataSize = pWav->totalPCMFrameCount * pWav->channels * sizeof(drwav_int16);
     if (sampleDataSize > DRWAV_SIZE_MAX) {
         drwav_uninit(pWav);
@@ -8095,6 +8100,11 @@ DRWAV_PRIVATE float* drwav__read_pcm_frames_and_close_f32(drwav* pWav, unsigned
 
     DRWAV_ASSERT(pWav != NULL);
 
+    if (pWav->totalPCMFrameCount > DRWAV_SIZE_MAX / (pWav->channels * sizeof(float))) {
+        drwav_uninit(pWav);
+        return NULL;    /* File's too big. The multiplication below would overflow. */
+    }
+
     sampleDataSize = pWav->totalPCMFrameCount * pWav->channels * sizeof(float);
     if (sampleDataSize > DRWAV_SIZE_MAX) {
         drwav_uninit(pWav);
@@ -8137,6 +8147,11 @@ DRWAV_PRIVATE drwav_int32* drwav__read_pcm_frames_and_close_s32(drwav* pWav, uns
 
     DRWAV_ASSERT(pWav != NULL);
 
+    if (pWav->totalPCMFrameCount > DRWAV_SIZE_MAX / (pWav->channels * sizeof(drwav_int32))) {
+        drwav_uninit(pWav);
+        return NULL;    /* File's too big. The multiplication below would overflow. */
+    }
+
     sampleDataSize = pWav->totalPCMFrameCount * pWav->channels * sizeof(drwav_int32);
     if (sampleDataSize > DRWAV_SIZE_MAX) {
         drwav_uninit(pWav);
-- 
2.43.0


From 9ff3bd9cd86593db8f352dd86f0828932c4c4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:30 +0000
Subject: [PATCH 28/35] fix: an invalid predictor in an ADPCM wav file led to
 reads outside of the coefficient tables

---
 dependencies/dr_libs/dr_wav.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 45b872b..97f9886 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -6293,6 +6293,8 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
 
                 /* The predictor is used as an index into coeff1Table so we'll need to validate to ensure it never overflows. */
                 if (pWav->msadpcm.predictor[0] >= drwav_countof(coeff1Table)) {
+                    pWav->msadpcm.cachedFrameCount = 0;         /* The next read must not go on decoding this block. */
+                    pWav->msadpcm.bytesRemainingInBlock = 0;
                     return totalFramesRead; /* Invalid file. */
                 }
             } else {
@@ -6320,6 +6322,8 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
 
                 /* The predictor is used as an index into coeff1Table so we'll need to validate to ensure it never overflows. */
                 if (pWav->msadpcm.predictor[0] >= drwav_countof(coeff1Table) || pWav->msadpcm.predictor[1] >= drwav_countof(coeff2Table)) {
+                    pWav->msadpcm.cachedFrameCount = 0;         /* The next read must not go on decoding this block. */
+                    pWav->msadpcm.bytesRemainingInBlock = 0;
                     return totalFramesRead; /* Invalid file. */
                 }
             }
-- 
2.43.0


From a1086dc8c6e1fb49e08b43f1482e40512782c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 29/35] fix: opening a wav file with a bad size of its format
 chunk hung

---
 dependencies/dr_libs/dr_wav.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 97f9886..8765286 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -3355,6 +3355,11 @@ DRWAV_PRIVATE drwav_bool32 drwav_init__internal(drwav* pWav, drwav_chunk_proc on
                     bytesReadSoFar += fmt.extendedSize;
                 }
 
+                /* A size that does not fit into the seek offset would seek backwards, and this chunk would be read over and over. */
+                if (header.sizeInBytes > 0x7FFFFFFF) {
+                    return DRWAV_FALSE;
+                }
+
                 /* Seek past any leftover bytes. For w64 the leftover will be defined based on the chunk size. */
                 if (pWav->onSeek(pWav->pUserData, (int)(header.sizeInBytes - bytesReadSoFar), DRWAV_SEEK_CUR) == DRWAV_FALSE) {
                     return DRWAV_FALSE;
-- 
2.43.0


From d282c576a410ce49915965a2d3d1e84afd554989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 30/35] fix: opening a wav file with a corrupt chunk size took
 forever on some file systems

---
 dependencies/dr_libs/dr_wav.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 8765286..cc2fc58 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1984,6 +1984,12 @@ DRWAV_PRIVATE drwav_result drwav__read_chunk_header(drwav_read_proc onRead, void
 DRWAV_PRIVATE drwav_bool32 drwav__seek_forward(drwav_seek_proc onSeek, drwav_uint64 offset, void* pUserData)
 {
     drwav_uint64 bytesRemainingToSeek = offset;
+
+    /* No file is this large (256 TB): it's a corrupt chunk size, and seeking there in small steps would take forever. */
+    if ((offset >> 48) != 0) {
+        return DRWAV_FALSE;
+    }
+
     while (bytesRemainingToSeek > 0) {
         if (bytesRemainingToSeek > 0x7FFFFFFF) {
             if (!onSeek(pUserData, 0x7FFFFFFF, DRWAV_SEEK_CUR)) {
-- 
2.43.0


From e7aba602b762caed21d47bdfa00eb237df8d80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 31/35] fix: reading a big-endian wav or AIFF file with an
 unusual sample size aborted the program

---
 dependencies/dr_libs/dr_wav.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index cc2fc58..6fa4708 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1731,8 +1731,18 @@ static DRWAV_INLINE void drwav__bswap_samples(void* pSamples, drwav_uint64 sampl
         } break;
         default:
         {
-            /* Unsupported format. */
-            DRWAV_ASSERT(DRWAV_FALSE);
+            /* An unusual size, like 40 or 48 bits. It's up to the file being read, so it's not a reason to abort the program. */
+            drwav_uint8* pBytes = (drwav_uint8*)pSamples;
+            drwav_uint64 iSample;
+            drwav_uint32 iByte;
+            for (iSample = 0; iSample < sampleCount; iSample += 1) {
+                for (iByte = 0; iByte < bytesPerSample/2; iByte += 1) {
+                    drwav_uint8 t = pBytes[iByte];
+                    pBytes[iByte] = pBytes[bytesPerSample - 1 - iByte];
+                    pBytes[bytesPerSample - 1 - iByte] = t;
+                }
+                pBytes += bytesPerSample;
+            }
         } break;
     }
 }
-- 
2.43.0


From c81268e35bedcd68c4a8634103846786e7fdd388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 32/35] fix: SineWave hung on large negative initial phases

---
 include/signals/hart_sinewave.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..e624b38 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -75,11 +75,8 @@ private:
 
     void clampPhase()
     {
-        while (m_phaseRadians < 0)
-            m_phaseRadians += hart::twoPi;
-
-        if (m_phaseRadians > hart::twoPi)
-            m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi);
+        if (m_phaseRadians < 0 || m_phaseRadians > hart::twoPi)
+            m_phaseRadians = wrapPhase (m_phaseRadians);
     }
 };
 
-- 
2.43.0


From 4488bbacb85b67796def74ede9d9349dcf4d0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 33/35] fix: process() dereferenced a null pointer when there
 is no DSP (left) to test

---
 include/hart_process_audio.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 125be9f..e43368d 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -81,6 +81,9 @@ public:
         if (sampleRateHz <= 0)
             HART_THROW_OR_RETURN (hart::ValueError, "Sample rate should be a positive value in Hz", *this);
 
+        if (m_processor == nullptr)
+            HART_THROW_OR_RETURN (hart::StateError, "No DSP to test - it's either null, or already returned by process()", *this);
+
         if (! m_processor->supportsSampleRate (sampleRateHz))
             HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", *this);
 
@@ -332,6 +335,9 @@ public:
     /// @details Call this after setting all the test parameters
     std::unique_ptr<DSP<SampleType>> process()
     {
+        if (m_processor == nullptr)
+            HART_THROW_OR_RETURN (hart::StateError, "No DSP to test - it's either null, or already returned by process()", nullptr);
+
         m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);
 
         if (m_durationFrames == 0)
-- 
2.43.0


From c15e7cbe1670d85085f011771fa44369806cc10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 34/35] fix: without exceptions, a WavFile of a missing file
 dereferenced a null pointer

---
 include/signals/hart_wavfile.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 064b848..0d083d5 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -141,10 +141,10 @@ public:
 private:
     const std::string m_filePath;
     const Loop m_loop;
-    size_t m_wavNumChannels;
-    double m_wavSampleRateHz;
+    size_t m_wavNumChannels = 0;
+    double m_wavSampleRateHz = 0.0;
     size_t m_wavOffsetFrames = 0;
-    std::shared_ptr<AudioBuffer<float>> m_wavFrames;
+    std::shared_ptr<AudioBuffer<float>> m_wavFrames = std::make_shared<AudioBuffer<float>>();
 };
 
 }  // namespace hart
-- 
2.43.0


From 3e2680a7609e0530f2f129a05e086920a3f20a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 35/35] fix: Wave64 files whose chunks do not end on 8 bytes
 could not be read

---
 dependencies/dr_libs/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 6fa4708..84c27b6 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1946,7 +1946,7 @@ DRWAV_PRIVATE unsigned int drwav__chunk_padding_size_riff(drwav_uint64 chunkSize
 
 DRWAV_PRIVATE unsigned int drwav__chunk_padding_size_w64(drwav_uint64 chunkSize)
 {
-    return (unsigned int)(chunkSize % 8);
+    return (unsigned int)((8 - chunkSize % 8) % 8);
 }
 
 DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav_uint64 samplesToRead, drwav_int16* pBufferOut);
-- 
2.43.0

