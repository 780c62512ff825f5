From a3a754b3c9b696fa76533945238c0e10896a43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 01/37] fix: RemoveStartCode panics on data shorter than a
 start code

---
 avc/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..2ebc9cb 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -312,11 +312,11 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	if len(data) < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if len(data) > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
-- 
2.43.0


From 748c59162f8305ffecea5b27d22f6edeb0d70424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 02/37] fix: SplitNalU panics on data shorter than a start code

---
 avc/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 2ebc9cb..9a1b9e8 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -299,6 +299,12 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
+	// 不足一个start code, 不再查找
+	if len(data) < 3 {
+		cb(data)
+		return
+	}
+
 	var offset int
 	// +3查找第二个nalu
 	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
-- 
2.43.0


From 5b3e4fd128e14602d1665346948f2ac6725aab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 03/37] fix: ParseExtraDataFromKeyNALU panics on an empty NAL
 unit

---
 avc/util.go  | 4 ++++
 hevc/util.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 9a1b9e8..b435d5f 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -336,6 +336,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..1297590 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From b3dbae45062dc755d84ab03bc1d05755331385b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 04/37] fix: avc Marshal panics on a short sps and wraps the
 sps and pps counts

---
 avc/mp4.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..79df1ae 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,6 +47,11 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
+	// 5bits的sps数量, 8bits的pps数量
+	if len(spsList) > 0x1F || len(ppsList) > 0xFF {
+		return nil, fmt.Errorf("too many sps or pps")
+	}
+
 	bytes := make([]byte, 1024)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
@@ -60,6 +65,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	var noStartCodeSps []byte
 	for _, sps := range spsList {
 		noStartCodeSps = RemoveStartCode(sps)
+		if len(noStartCodeSps) < 4 {
+			return nil, fmt.Errorf("invalid sps")
+		}
+
 		if err := writer.WriteUint16(uint16(len(noStartCodeSps))); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bb6ca161cc465719831b5aec929d5ef9c2e8e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 05/37] fix: hevc Marshal panics on an empty parameter set

---
 hevc/mp4.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..d923712 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -94,6 +94,10 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	write := func(data [][]byte) error {
 		noStartCodeData := avc.RemoveStartCode(data[0])
+		if len(noStartCodeData) == 0 {
+			return fmt.Errorf("nalu cannot be null")
+		}
+
 		if err := writer.WriteUint8((noStartCodeData[0] >> 1) & 0x3F); err != nil {
 			return err
 		}
-- 
2.43.0


From feccac71143cbd5913032bcea24e6566dca5ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 06/37] fix: hevc Unmarshal builds the sps list out of the pps
 list

---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index d923712..95b5d9b 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -193,7 +193,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From da216dc14a0dec0bdc66e97a1113f00a1b08644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 07/37] fix: M4VCExtraDataToAnnexB slices past the end of a
 truncated record

---
 avc/util.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index b435d5f..115dfff 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -270,6 +270,9 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 
 	readUint8 &= 0x3 + 1
 	unitNb, err := reader.ReadUint8()
+	if err != nil {
+		return nil, err
+	}
 	unitNb &= 0x1f
 
 	spsDone := 0
@@ -278,14 +281,15 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 		unitNb--
 
 		var size uint16
+		var unit []byte
 		size, err = reader.ReadUint16()
 		if err != nil {
 			return nil, err
-		} else if err = writer.Write(StartCode4); err != nil {
+		} else if unit, err = reader.ReadBytes(int(size)); err != nil {
 			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
+		} else if err = writer.Write(StartCode4); err != nil {
 			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
+		} else if err = writer.Write(unit); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From acb91a3ddf58f613d3916029db68b267ab94143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 08/37] fix: M4VCExtraDataToAnnexB drops the pps when there is
 more than one sps

---
 avc/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 115dfff..1b75511 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -293,8 +293,8 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 			return nil, err
 		}
 
-		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
+		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 0 {
+			spsDone++
 			unitNb, _ = reader.ReadUint8()
 		}
 	}
-- 
2.43.0


From 78005a3fc3388cd3fe824876bd042294824bba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 09/37] fix: M4VCExtraDataToAnnexB rejects records with many
 small parameter sets

---
 avc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/util.go b/avc/util.go
index 1b75511..7c9be58 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -276,7 +276,7 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 	unitNb &= 0x1f
 
 	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
+	writer := bufio.NewBytesWriter(make([]byte, len(src)*2))
 	for unitNb != 0 {
 		unitNb--
 
-- 
2.43.0


From e2026dd7eaa505601e14e8a455c6a86962ba1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 10/37] fix: avc ParseSPS reads emulation prevention bytes as
 payload

---
 avc/sps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..5696b9b 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -28,6 +28,8 @@ type SPS struct {
 
 func ParseSPS(data []byte) (s SPS, err error) {
 	data = RemoveStartCode(data)
+	// 去掉防竞争字节
+	data = bytes.Replace(data, []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}, -1)
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From 0bb88d1c3cdda706f09c7795ca62005629f65616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 11/37] fix: avc ParseSPS crops interlaced and non 4:2:0
 pictures by the wrong unit

---
 avc/sps.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 5696b9b..12ff5f6 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -56,12 +56,13 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	// 缺省为4:2:0
+	chroma_format_idc := uint(1)
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
 		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
@@ -216,8 +217,17 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位由色度格式和场编码决定
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if chroma_format_idc == 1 || chroma_format_idc == 2 {
+		cropUnitX *= 2
+	}
+	if chroma_format_idc == 1 {
+		cropUnitY *= 2
+	}
+
+	s.Width = int((s.MbWidth * 16) - s.CropLeft*cropUnitX - s.CropRight*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*cropUnitY - s.CropBottom*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From 9cbf98bdf466e756c445389d3ef92b98f5040325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 12/37] fix: avc ParseSPS ignores an error of
 video_signal_type_present_flag

---
 avc/sps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avc/sps.go b/avc/sps.go
index 12ff5f6..74b67fa 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -274,6 +274,10 @@ func ParseSPS(data []byte) (s SPS, err error) {
 			_ = overscan_appropriate_flagu
 		}
 		video_signal_type_present_flag, err := r.ReadBit()
+		if err != nil {
+			return s, err
+		}
+
 		if video_signal_type_present_flag != 0 {
 			video_format, err := r.ReadBits(3)
 			if err != nil {
-- 
2.43.0


From aaa92fbdd719b857dd7f8d979d1dd9da012bc845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 13/37] fix: hevc ParseSPS ignores the conformance window

---
 hevc/sps.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..a684c45 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,30 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		var left, right, top, bottom uint
+		if left, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if right, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if top, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if bottom, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
+
+		// 裁剪单位由色度格式决定
+		subWidth, subHeight := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidth = 2
+		}
+		if ctx.chromaFormat == 1 {
+			subHeight = 2
+		}
+		ctx.Width = int(ctx.PicWidthInLumaSamples - left*subWidth - right*subWidth)
+		ctx.Height = int(ctx.PicHeightInLumaSamples - top*subHeight - bottom*subHeight)
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From 6cc0141b824675c4dae4ac0153a312973bd78374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 14/37] fix: ReadSE returns a wrong value for negative codes

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..8c08d94 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From d08de5ac7bcf6e6adbf6991c4c15fd8ac5c3d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:25 +0000
Subject: [PATCH 15/37] fix: ReadADtsFixedHeader panics on short data

---
 utils/aac_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..03e8b40 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -217,6 +217,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
-- 
2.43.0


From 9c97e4d3c470a5449f388d9fece28ca0a158743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:25 +0000
Subject: [PATCH 16/37] fix: ParseMpeg4AudioConfig and AAC tracks without a
 config panic

---
 demuxer.go        | 1 -
 utils/aac_util.go | 4 ++++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..d25a3f2 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -105,7 +105,6 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 	}
 
 	if utils.AVCodecIdAAC == id && !config.HasADTSHeader {
-		utils.Assert(extraData != nil)
 		mpeg4AudioConfig, err := utils.ParseMpeg4AudioConfig(extraData)
 		if err != nil {
 			println(err.Error())
diff --git a/utils/aac_util.go b/utils/aac_util.go
index 03e8b40..288265d 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -249,6 +249,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 }
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	//audio specific config
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
-- 
2.43.0


From 05b48d16b8862334d947df8ab7e6d7830245eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:25 +0000
Subject: [PATCH 17/37] fix: GetSampleRateIndex looks the rate up among the
 indices

---
 utils/aac_util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 288265d..74bdcaf 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -181,7 +181,13 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 }
 
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	for i := 0; i < len(audioSamplingRates); i++ {
+		if audioSamplingRates[i] == rate {
+			return i
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From 3876cde8ea47234abcfaa591d45cf61ed165da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:25 +0000
Subject: [PATCH 18/37] fix: ADTS channel configuration 7 is 8 channels

---
 video_stream.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..74b960a 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,15 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
-		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
 
 		return extraData, skip, AudioConfig{
-			SampleRate:    rate,
+			SampleRate:    config.SampleRate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From 804d61556b7abc285a48ae719342eb281df6b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 19/37] fix: ConvertTs loses precision in floating point

---
 packet_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..5daacbb 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -7,8 +7,13 @@ import (
 )
 
 func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
-	interval := float64(dstTimeBase) / float64(srcTimeBase)
-	return int64(float64(ts) * interval)
+	if srcTimeBase == 0 {
+		return 0
+	}
+
+	// 整数运算, 浮点数会丢失精度
+	src, dst := int64(srcTimeBase), int64(dstTimeBase)
+	return ts/src*dst + ts%src*dst/src
 }
 
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
-- 
2.43.0


From 72e44f3efcf886a98f1d5bb0a1d4cf23148cf1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 20/37] fix: AVCCPacket2AnnexB panics on an empty AnnexB key
 frame

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 5daacbb..444a7fb 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -23,7 +23,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			extra, nalu := avc.RemoveStartCode(extraData), avc.RemoveStartCode(pkt.Data)
+			if len(extra) > 0 && len(nalu) > 0 && extra[0] != nalu[0] {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
-- 
2.43.0


From 45edf940a5e4404978e87a17da994303573c92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 21/37] fix: AVCCPacket2AnnexB panics on a stream without codec
 parameters

---
 packet_utils.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 444a7fb..d20a027 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -48,11 +48,18 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		var n int
 		var bytes []byte
 
-		var extraDataSize int
+		var extraData []byte
 		if pkt.Key && stream.CodecParameters != nil {
-			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
+			extraData = stream.CodecParameters.AnnexBExtraData()
 		}
 
+		// NALU长度字段的字节数
+		lengthSize := 4
+		if data, ok := stream.CodecParameters.(*HEVCCodecData); ok {
+			lengthSize = int(data.Record.LengthSizeMinusOne)
+		}
+
+		extraDataSize := len(extraData)
 		dstSize := extraDataSize + len(pkt.Data) + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
@@ -65,14 +72,13 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
-			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
+			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
 				panic(err)
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+		copy(bytes[:extraDataSize], extraData)
 		n += extraDataSize
 		pkt.dataAnnexB = bytes[:n]
 	}
-- 
2.43.0


From 7a4cc468cff20600c3cb8a16024509f09eae9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 22/37] fix: AVCCPacket2AnnexB overruns its buffer when length
 fields are shorter than start codes

---
 packet_utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packet_utils.go b/packet_utils.go
index d20a027..93b0a74 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -61,6 +61,11 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 
 		extraDataSize := len(extraData)
 		dstSize := extraDataSize + len(pkt.Data) + 256
+		if lengthSize < 4 {
+			// start code比长度字段长
+			dstSize += len(pkt.Data)
+		}
+
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 2621e13185c6d92e46a38bedbd37991b4e094986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 23/37] fix: AVCCPacket2AnnexB panics on a malformed hevc
 packet

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 93b0a74..e1dbf53 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -79,7 +79,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
-				panic(err)
+				println(err.Error())
+				return nil
 			}
 		}
 
-- 
2.43.0


From df8c9ee304edf3f8021ffa022af142b7cd479079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 24/37] fix: AnnexBPacket2AVCC overruns its buffer on packets
 of many NAL units

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index e1dbf53..ef83dc5 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -99,7 +99,8 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
 		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		// 3个字节的start code会变成4个字节的长度
+		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 618a4f7fa5768790fed392d77681df6e1151124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 25/37] fix: packets are queued for another track when a later
 track delivers first

---
 demuxer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index d25a3f2..3953357 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -251,15 +251,12 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 回调AVPacket, 如果没有完成探测, 则保存到Packets中, 否则回调处理
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
-	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	// 其他track的packet可能先到
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets := s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From 21357f0b76fe25388372e3da9c19f3f85393cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 26/37] fix: packets of a track with equal dts are delivered
 out of order

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 3953357..e20d112 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -462,7 +462,7 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 
 	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From d42f234eaad2577d57da133a2272f0f8af407eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 27/37] fix: pcm sample rate falls back to the sample size

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index e20d112..ccbaffa 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -357,7 +357,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From 6e4dcb305988138733ffcd89bc9ef7a41e87d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 28/37] fix: StreamsBuffer panics when a later stream is
 written first

---
 streams_buffer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..327356e 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,12 +10,15 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	for index >= len(s.buffers) {
+		s.buffers = append(s.buffers, nil)
+	}
+
+	if s.buffers[index] == nil {
 		if utils.AVMediaTypeVideo == mediaType {
-			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
+			s.buffers[index] = collections.NewRBBlockBuffer(1024 * 1024 * 2)
 		} else {
-			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(48000*12))
+			s.buffers[index] = collections.NewRBBlockBuffer(48000 * 12)
 		}
 	}
 
-- 
2.43.0


From a778de2cf54357dd8347164f3dcd60f206306874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 29/37] fix: the buffer split off starts past its own memory

---
 collections/buffer_direct.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..9d01835 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -129,7 +129,6 @@ func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From ac9f8ae30da63d98fd9cd9e751f6ee2e52a7ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 30/37] fix: a second expansion forgets the blocks discarded by
 the first

---
 collections/buffer_rb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..ce712cb 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -82,10 +82,13 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		discardCount := bufio.MaxInt(r.blocks.Size()-1, 0)
+		for i := 0; i < discardCount; i++ {
 			r.blocks.Pop()
 		}
+
+		// 可能连续多次扩容
+		r.discardBlockCount += discardCount
 	}
 
 	bytes := r.data[tail : tail+size]
-- 
2.43.0


From 9322d00f8b13d1de119fab6130348f3a53c68c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 31/37] fix: a full wrapped ring hands out memory of a live
 block

---
 collections/buffer_rb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index ce712cb..797eadd 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -44,6 +44,9 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		tail = oldBlock.index + oldBlock.size
 	}
 
+	// 多个block时, 尾部没有超过头部, 说明已经回环. 回环后缓冲区满时, tail等于head
+	over := r.blocks.Size() > 1 && tail <= head
+
 	// 分配新的内存块
 	if oldBlock == nil || oldBlock.completed {
 		oldBlock = &struct {
@@ -59,7 +62,6 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		r.blocks.Push(oldBlock)
 	}
 
-	over := tail < head
 	if over && head-tail >= size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
-- 
2.43.0


From 3f441cc09eec4830810c653041b8791431fa4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 32/37] fix: a sealed ring buffer still allocates

---
 collections/buffer_rb.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 797eadd..1b82c4d 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -22,6 +22,8 @@ func (r *RBBlockBuffer) Write(data []byte) {
 }
 
 func (r *RBBlockBuffer) Alloc(size int) []byte {
+	utils.Assert(!r.sealed)
+
 	head, tail := 0, 0
 	var oldBlock *struct {
 		index     int
-- 
2.43.0


From 431120727dcd17ee0d72c2373642ee9e5b28b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 33/37] fix: Queue reports a capacity of 0

---
 collections/ring_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/ring_buffer.go b/collections/ring_buffer.go
index ded39d1..fbe1a22 100644
--- a/collections/ring_buffer.go
+++ b/collections/ring_buffer.go
@@ -89,7 +89,7 @@ func (r *ringBuffer[T]) Size() int {
 }
 
 func (r *ringBuffer[T]) Capacity() int {
-	return r.capacity
+	return cap(r.data)
 }
 
 func (r *ringBuffer[T]) Data() ([]T, []T) {
-- 
2.43.0


From 8c1d95e4572d9e620ce8ee7ef8055e3fa2cbf701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 34/37] fix: packet type of an audio packet depends on the
 history of the pool

---
 av_packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/av_packet.go b/av_packet.go
index e0373e9..ff5e548 100644
--- a/av_packet.go
+++ b/av_packet.go
@@ -96,6 +96,7 @@ func NewAudioPacket(data []byte, ts int64, id utils.AVCodecID, index, timebase i
 	packet.Index = index
 	packet.Timebase = timebase
 	packet.MediaType = utils.AVMediaTypeAudio
+	packet.PacketType = PacketTypeNONE
 
 	return packet
 }
-- 
2.43.0


From c699dbf56b62900d4799fb961061cff896261d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 35/37] fix: OnUnpackStream2FileHandler keeps the tail of an
 older file

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e374151..7ffdb92 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 8c9d7bfd0a08b9d3030132b690a67a72643976e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 36/37] fix: RBBlockBuffer.PopBack releases blocks that an
 expansion has discarded

---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 1b82c4d..237d556 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -116,6 +116,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 剩余的内存块都已经在扩容时丢弃
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From 917c1e572bfd2e99c606d03c347300287f26d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:50 +0000
Subject: [PATCH 37/37] fix: an H.264 SPS with 4:4:4 chroma has twelve scaling
 lists

---
 avc/sps.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 74b67fa..7024370 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -93,7 +93,13 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			// 4:4:4有12个scaling list
+			scalingListCount := 8
+			if chroma_format_idc == 3 {
+				scalingListCount = 12
+			}
+
+			for i := 0; i < scalingListCount; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0

