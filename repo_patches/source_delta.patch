From c69277c4290f0e528046f03e43e6c5e340bd9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 01/32] fix: v1: verify the digest of AndroidManifest.xml when
 it is present

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..c0d309d 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -453,7 +453,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 			continue
 		}
 
-		if !zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
+		if !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
 		}
 
-- 
2.43.0


From eb0ea9520a43d2b0fe7231ab36e8eac2ed57411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 02/32] fix: v1: keep the documented ZIP order of signers
 instead of map order

---
 schemev1.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index c0d309d..4f35b7b 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -129,6 +129,7 @@ type schemeV1Signature struct {
 
 type schemeV1 struct {
 	sigs     map[string]*schemeV1Signature
+	sigOrder []string // keys of sigs, in the order the signature blocks have in the ZIP
 	manifest *manifest
 	hashers  map[string]hash.Hash
 	chain    [][]*x509.Certificate
@@ -158,7 +159,8 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	}
 
 	var signatureErrors []error
-	for _, sig := range scheme.sigs {
+	for _, sigName := range scheme.sigOrder {
+		sig := scheme.sigs[sigName]
 		sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			scheme.chain = append(scheme.chain, sig.chain)
@@ -254,6 +256,7 @@ func (p *schemeV1) addSignatureFile(pathUpper string, f *apkparser.ZipReaderFile
 	if s == nil {
 		s = &schemeV1Signature{}
 		p.sigs[prefix] = s
+		p.sigOrder = append(p.sigOrder, prefix)
 	}
 
 	s.manifestFilename = pathUpper
@@ -286,6 +289,7 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 		if s == nil {
 			s = &schemeV1Signature{}
 			p.sigs[prefix] = s
+			p.sigOrder = append(p.sigOrder, prefix)
 		}
 		s.sigBlockFilename = f.Name
 		s.cert = sig
@@ -307,11 +311,15 @@ func (p *schemeV1) prepForVerification() error {
 		return errors.New("No valid MANIFEST.SF")
 	}
 
-	for prefix, sig := range p.sigs {
-		if sig.cert == nil || sig.signatureManifest == nil {
+	sigOrder := p.sigOrder[:0]
+	for _, prefix := range p.sigOrder {
+		if sig := p.sigs[prefix]; sig.cert == nil || sig.signatureManifest == nil {
 			delete(p.sigs, prefix)
+		} else {
+			sigOrder = append(sigOrder, prefix)
 		}
 	}
+	p.sigOrder = sigOrder
 
 	if len(p.sigs) == 0 {
 		return errors.New("No signatures.")
@@ -324,7 +332,8 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 	var err error
 	validSignatures := map[string]*schemeV1Signature{}
 	var signatureErrors []error
-	for sigName, sig := range p.sigs {
+	for _, sigName := range p.sigOrder {
+		sig := p.sigs[sigName]
 		sig.chain, err = p.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			p.chain = append(p.chain, sig.chain)
@@ -446,12 +455,15 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	}
 
 	required := make([]string, 0, len(apk.File))
+	seen := make(map[string]bool, len(apk.File))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path, zf := range apk.File {
-		if zf.IsDir {
+	for _, zf := range apk.FilesOrdered {
+		path := zf.Name
+		if zf.IsDir || seen[path] {
 			continue
 		}
+		seen[path] = true
 
 		if !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
@@ -483,7 +495,11 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		var certChains [][]*x509.Certificate
-		for _, sig := range p.sigs {
+		for _, sigName := range p.sigOrder {
+			sig := p.sigs[sigName]
+			if sig == nil {
+				continue
+			}
 			if _, prs := sig.signatureManifest.entries[path]; prs {
 				certChains = append(certChains, sig.chain)
 			}
-- 
2.43.0


From e754d83a71abb16d98f74887dd7b73a0be03db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 03/32] fix: drop the results of a rejected v3 signature when
 falling back to v2

---
 signingblock/signingblock.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..0a34892 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -176,13 +176,22 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 		if res.ExtraBlocks == nil {
 			res.ExtraBlocks = make(map[BlockId][]byte)
 		}
-		res.ExtraBlocks[blockIdSchemeV3] = blocks[blockIdSchemeV3]
-		delete(blocks, blockIdSchemeV3)
+		for _, id := range []BlockId{blockIdSchemeV3, blockIdSchemeV31} {
+			if block, prs := blocks[id]; prs {
+				res.ExtraBlocks[id] = block
+				delete(blocks, id)
+			}
+		}
 
 		for _, e := range res.Errors {
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+
+		// Nothing the rejected v3 signature has claimed is part of the v2 result.
+		res.Certs = nil
+		res.SigningLineage = nil
+		res.ExtraResults = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From 952c0d3221dde5e722ab8f003d14c3a450eb30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 04/32] fix: v3.1: verify the content digests signed by the
 v3.1 signers

---
 signingblock/schemev31.go    | 10 +++++++---
 signingblock/signingblock.go | 22 +++++++++++++++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..2ae2389 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,11 +9,15 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	// contentDigests are the digests the v3.1 signers have signed. They are kept apart from those
+	// of the v3 signers, because only the latter are covered by the source stamp.
+	contentDigests map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
-	v31ContentDigest := make(map[contentDigest][]byte)
-	s.backendV31.parseSigners(block, v31ContentDigest, result)
+	s.contentDigests = make(map[contentDigest][]byte)
+	s.backendV31.parseSigners(block, s.contentDigests, result)
 
 	s.backendV3.rotationMinSdkVersion = math.MaxInt32
 	for _, signer := range s.backendV31.signers {
@@ -28,7 +32,7 @@ func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[content
 	v3Block := result.ExtraBlocks[blockIdSchemeV3]
 	if v3Block == nil {
 		result.addError("The APK contains a v3.1 signing block without a v3.0 base block")
-		for k, v := range v31ContentDigest {
+		for k, v := range s.contentDigests {
 			contentDigests[k] = v
 		}
 		return
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 0a34892..a0ae2d4 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -584,7 +584,27 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return nil
 	}
 
-	if !s.verifyIntegrity(contentDigests, res) {
+	expectedDigests := contentDigests
+	if v31, ok := scheme.(*schemeV31); ok {
+		if len(v31.contentDigests) == 0 {
+			res.addError("no content digests found in the v3.1 block")
+			return contentDigests
+		}
+
+		expectedDigests = make(map[contentDigest][]byte, len(contentDigests))
+		for algo, digest := range contentDigests {
+			expectedDigests[algo] = digest
+		}
+		for algo, digest := range v31.contentDigests {
+			if v3digest, prs := expectedDigests[algo]; prs && !bytes.Equal(v3digest, digest) {
+				res.addError("0x%x contents digest of the v3.1 block does not match the v3 block", int(algo))
+				return contentDigests
+			}
+			expectedDigests[algo] = digest
+		}
+	}
+
+	if !s.verifyIntegrity(expectedDigests, res) {
 		return contentDigests
 	}
 
-- 
2.43.0


From 612802157fa77bf8b3d796feba1d860c62a93438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 05/32] fix: v3: compare the unsigned maxSdkVersion with the
 signed one

---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From be2f037d8f0fbae5d72a4117f988a23eff4b2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 06/32] fix: accept empty pairs at the end of the APK signing
 block

---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index a0ae2d4..bbafd1c 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -503,7 +503,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -526,7 +526,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -541,13 +541,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From d881e3d308b0674754ecf4317554363667368f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 07/32] fix: v1: detect a stripped v3 signature, not only a
 stripped v2 one

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 4f35b7b..9defabd 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -357,7 +357,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					continue
 				}
 
-				if id == 2 {
+				if id == 2 || (id == 3 && apilevel.SupportsSigV3(maxSdkVersion)) {
 					return fmt.Errorf("This apk has '%s: %s', cannot be verified using v1 scheme, downgrade attack?",
 						attrAndroidApkSigned, idList)
 				}
-- 
2.43.0


From df324c15ab695babb3e18ef525336d50ce6de6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 08/32] fix: never let a read error stand for a missing
 signature or a different ZIP

---
 apkverifier.go                      |  23 ++++-
 internal/guardreader/guardreader.go | 126 ++++++++++++++++++++++++++++
 signingblock/signingblock.go        |  17 ++++
 3 files changed, 163 insertions(+), 3 deletions(-)
 create mode 100644 internal/guardreader/guardreader.go

diff --git a/apkverifier.go b/apkverifier.go
index 556e7f9..4627a4f 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -14,6 +14,7 @@ import (
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/guardreader"
 	"github.com/avast/apkverifier/signingblock"
 )
 
@@ -72,6 +73,14 @@ func VerifyWithSdkVersion(path string, optionalZip *apkparser.ZipReader, minSdkV
 // inside the <minSdkVersion;maxSdkVersion> interval.
 // minSdkVersion == apilevel.V_AnyMin means it will obtain the minSdkVersion from AndroidManifest.
 func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) (res Result, err error) {
+	guard := guardreader.New(r)
+	r = guard
+	defer func() {
+		if rerr := guard.Err(); rerr != nil && (err == nil || err == ErrMixedDexApkFile) {
+			err = fmt.Errorf("failed to read the APK file: %w", rerr)
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -154,8 +163,15 @@ func ExtractCerts(path string, optionalZip *apkparser.ZipReader) ([][]*x509.Cert
 	return ExtractCertsReader(f, optionalZip)
 }
 
-func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]*x509.Certificate, error) {
-	var err error
+func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) (certs [][]*x509.Certificate, err error) {
+	guard := guardreader.New(r)
+	r = guard
+	defer func() {
+		if rerr := guard.Err(); rerr != nil && err == nil {
+			err = fmt.Errorf("failed to read the APK file: %w", rerr)
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -164,7 +180,8 @@ func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]
 		defer optionalZip.Close()
 	}
 
-	certs, signingBlockError := signingblock.ExtractCertsReader(r, apilevel.V_AnyMin, apilevel.V_AnyMax)
+	var signingBlockError error
+	certs, signingBlockError = signingblock.ExtractCertsReader(r, apilevel.V_AnyMin, apilevel.V_AnyMax)
 	if !signingblock.IsSigningBlockNotFoundError(signingBlockError) {
 		return certs, signingBlockError
 	}
diff --git a/internal/guardreader/guardreader.go b/internal/guardreader/guardreader.go
new file mode 100644
index 0000000..06cd781
--- /dev/null
+++ b/internal/guardreader/guardreader.go
@@ -0,0 +1,126 @@
+// Package guardreader makes sure that read errors can't be mistaken for a property of the file being read.
+package guardreader
+
+import "io"
+
+const maxEmptyReads = 100
+
+// Reader wraps an io.ReadSeeker and remembers the first error it has returned. The parsers treat an
+// unreadable part of the APK the same as a missing or malformed one, which must not decide the verdict.
+//
+// It also implements io.ReaderAt, because the replacement apkparser uses when it is not available
+// does not handle short reads.
+type Reader struct {
+	r    io.ReadSeeker
+	size int64
+	err  error
+}
+
+// New wraps r. If r is a *Reader already, it is returned as it is.
+func New(r io.ReadSeeker) *Reader {
+	if g, ok := r.(*Reader); ok {
+		return g
+	}
+
+	g := &Reader{r: r}
+	if g.size, g.err = r.Seek(0, io.SeekEnd); g.err == nil {
+		_, g.err = r.Seek(0, io.SeekStart)
+	}
+	return g
+}
+
+// Err returns the first error encountered while accessing the wrapped reader. Reaching
+// the end of the file is not an error.
+func (g *Reader) Err() error {
+	return g.err
+}
+
+func (g *Reader) setErr(err error) error {
+	if g.err == nil {
+		g.err = err
+	}
+	return err
+}
+
+func (g *Reader) Seek(offset int64, whence int) (int64, error) {
+	pos, err := g.r.Seek(offset, whence)
+	if err != nil && !(whence == io.SeekStart && offset < 0) {
+		g.setErr(err)
+	}
+	return pos, err
+}
+
+func (g *Reader) Read(p []byte) (n int, err error) {
+	for i := 0; i < maxEmptyReads; i++ {
+		if n, err = g.r.Read(p); n != 0 || err != nil || len(p) == 0 {
+			break
+		}
+	}
+
+	if n == 0 && err == nil && len(p) != 0 {
+		return 0, g.setErr(io.ErrNoProgress)
+	}
+
+	if err == io.EOF {
+		pos, serr := g.r.Seek(0, io.SeekCurrent)
+		if serr != nil {
+			return n, g.setErr(serr)
+		} else if pos < g.size {
+			return n, g.setErr(io.ErrUnexpectedEOF)
+		}
+	} else if err != nil {
+		g.setErr(err)
+	}
+	return n, err
+}
+
+// ReadAt implements io.ReaderAt. It does not change the position of the Reader.
+func (g *Reader) ReadAt(p []byte, off int64) (n int, err error) {
+	if off < 0 || off >= g.size {
+		return 0, io.EOF
+	}
+
+	atEOF := false
+	if max := g.size - off; int64(len(p)) > max {
+		p = p[:max]
+		atEOF = true
+	}
+
+	if ra, ok := g.r.(io.ReaderAt); ok {
+		n, err = ra.ReadAt(p, off)
+		if n == len(p) {
+			err = nil
+		}
+	} else {
+		n, err = g.seekAndRead(p, off)
+	}
+
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+
+	if err != nil {
+		return n, g.setErr(err)
+	} else if atEOF {
+		return n, io.EOF
+	}
+	return n, nil
+}
+
+func (g *Reader) seekAndRead(p []byte, off int64) (n int, err error) {
+	oldpos, err := g.r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+
+	if _, err = g.r.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	if n, err = io.ReadFull(g.r, p); err != nil {
+		return n, err
+	}
+
+	_, err = g.r.Seek(oldpos, io.SeekStart)
+	return n, err
+}
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index bbafd1c..94a1da3 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -15,6 +15,7 @@ import (
 	"github.com/avast/apkparser"
 
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/guardreader"
 )
 
 // https://source.android.com/security/apksigning/v2.html
@@ -141,6 +142,14 @@ func VerifySigningBlock(path string, minSdkVersion, maxSdkVersion int32) (res *V
 }
 
 func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32, optionalZip *apkparser.ZipReader) (res *VerificationResult, magic uint32, err error) {
+	guard := guardreader.New(r)
+	r = guard
+	defer func() {
+		if rerr := guard.Err(); rerr != nil {
+			err = fmt.Errorf("failed to read the APK file: %w", rerr)
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -239,6 +248,14 @@ func ExtractCerts(path string, minSdkVersion, maxSdkVersion int32) (certs [][]*x
 }
 
 func ExtractCertsReader(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32) (certs [][]*x509.Certificate, err error) {
+	guard := guardreader.New(r)
+	r = guard
+	defer func() {
+		if rerr := guard.Err(); rerr != nil {
+			err = fmt.Errorf("failed to read the APK file: %w", rerr)
+		}
+	}()
+
 	var s *signingBlock
 	s, _, err = newSigningBlock(r)
 	if err != nil {
-- 
2.43.0


From c460c9166e82b9d64517566d184d0f3257378503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 09/32] fix: v1: do not ignore a manifest or signature file
 that can't be read

---
 apkverifier.go                      | 26 ++++++++++++++++++++++----
 internal/guardreader/guardreader.go | 11 +++++++++--
 manifest.go                         | 22 +++++++++++++++++++++-
 schemev1.go                         |  4 +++-
 4 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/apkverifier.go b/apkverifier.go
index 4627a4f..6b2ffc1 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -143,7 +143,7 @@ func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReade
 	if sandboxError != nil {
 		err = sandboxError
 	} else if err == nil {
-		if res.SigningSchemeId != 1 && manifestError != nil {
+		if manifestError != nil && (res.SigningSchemeId != 1 || isUnreadableFileError(manifestError)) {
 			err = manifestError
 		} else if fileMagic == dexHeaderMagic {
 			err = ErrMixedDexApkFile
@@ -249,6 +249,20 @@ func (e *sandboxVersionEncoder) getAttrIntValue(st *xml.StartElement, name strin
 	return 0, io.EOF
 }
 
+// errorRecorder remembers the last error of the wrapped reader, if it isn't io.EOF.
+type errorRecorder struct {
+	r   io.Reader
+	err error
+}
+
+func (r *errorRecorder) Read(p []byte) (int, error) {
+	n, err := r.r.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return n, err
+}
+
 func getManifestInfo(zip *apkparser.ZipReader) (minSdkVersion, targetSdkVersion, sandboxVersion int32, err error) {
 	manifest := zip.File["AndroidManifest.xml"]
 	if manifest == nil {
@@ -256,15 +270,19 @@ func getManifestInfo(zip *apkparser.ZipReader) (minSdkVersion, targetSdkVersion,
 	}
 
 	if err = manifest.Open(); err != nil {
-		err = fmt.Errorf("failed to open AndroidManifest.xml: %s", err.Error())
+		err = &unreadableFileError{fmt.Errorf("failed to open AndroidManifest.xml: %w", err)}
 		return
 	}
 	defer manifest.Close()
 
 	for manifest.Next() {
 		enc := sandboxVersionEncoder{1, 0, 1}
-		if err = apkparser.ParseXml(manifest, &enc, nil); err != nil {
-			err = fmt.Errorf("failed to parse AndroidManifest.xml: %s", err.Error())
+		rec := errorRecorder{r: manifest}
+		if err = apkparser.ParseXml(&rec, &enc, nil); err != nil {
+			err = fmt.Errorf("failed to parse AndroidManifest.xml: %w", err)
+			if rec.err != nil && !manifest.Next() {
+				err = &unreadableFileError{err}
+			}
 			return
 		}
 		return enc.minSdkVersion, enc.targetSdkVersion, enc.sandboxVersion, nil
diff --git a/internal/guardreader/guardreader.go b/internal/guardreader/guardreader.go
index 06cd781..7ea055a 100644
--- a/internal/guardreader/guardreader.go
+++ b/internal/guardreader/guardreader.go
@@ -1,10 +1,15 @@
 // Package guardreader makes sure that read errors can't be mistaken for a property of the file being read.
 package guardreader
 
-import "io"
+import (
+	"errors"
+	"io"
+)
 
 const maxEmptyReads = 100
 
+var errSizeChanged = errors.New("the size of the file has changed")
+
 // Reader wraps an io.ReadSeeker and remembers the first error it has returned. The parsers treat an
 // unreadable part of the APK the same as a missing or malformed one, which must not decide the verdict.
 //
@@ -45,7 +50,9 @@ func (g *Reader) setErr(err error) error {
 func (g *Reader) Seek(offset int64, whence int) (int64, error) {
 	pos, err := g.r.Seek(offset, whence)
 	if err != nil && !(whence == io.SeekStart && offset < 0) {
-		g.setErr(err)
+		return pos, g.setErr(err)
+	} else if err == nil && whence == io.SeekEnd && pos-offset != g.size {
+		return pos, g.setErr(errSizeChanged)
 	}
 	return pos, err
 }
diff --git a/manifest.go b/manifest.go
index 60c0dc7..77a95a4 100644
--- a/manifest.go
+++ b/manifest.go
@@ -37,9 +37,28 @@ type manifestParserContext struct {
 	consecutiveLineBreaks int
 }
 
+// unreadableFileError is returned if a file from the ZIP can't be read, as opposed to having
+// contents which are not valid.
+type unreadableFileError struct {
+	err error
+}
+
+func (e *unreadableFileError) Error() string {
+	return e.err.Error()
+}
+
+func (e *unreadableFileError) Unwrap() error {
+	return e.err
+}
+
+func isUnreadableFileError(err error) bool {
+	_, ok := err.(*unreadableFileError)
+	return ok
+}
+
 func parseManifest(f *apkparser.ZipReaderFile, withChunks bool) (*manifest, error) {
 	if err := f.Open(); err != nil {
-		return nil, err
+		return nil, &unreadableFileError{err}
 	}
 	defer f.Close()
 
@@ -55,6 +74,7 @@ func parseManifest(f *apkparser.ZipReaderFile, withChunks bool) (*manifest, erro
 
 		ctx.data, err = ioutil.ReadAll(f)
 		if err != nil {
+			err = &unreadableFileError{err}
 			continue
 		}
 		ctx.man.rawData = ctx.data
diff --git a/schemev1.go b/schemev1.go
index 9defabd..63d5d56 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -222,7 +222,9 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 			return nil, fmt.Errorf("%s: %s", name, err.Error())
 		}
 
-		if err := scheme.addSignatureFile(sfname, sf); err != nil {
+		if err := scheme.addSignatureFile(sfname, sf); isUnreadableFileError(err) {
+			return nil, fmt.Errorf("%s: %s", sfname, err.Error())
+		} else if err != nil {
 			errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
 			continue
 		}
-- 
2.43.0


From 3ad588cf3d9ebce02e396f87f9d14b16cdbf7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 10/32] fix: PickBestApkCert: prefer valid certificates, with
 one consistent order

---
 certinfo.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/certinfo.go b/certinfo.go
index f21b560..be65c2f 100644
--- a/certinfo.go
+++ b/certinfo.go
@@ -25,23 +25,25 @@ type CertInfo struct {
 	SerialNumber       *big.Int
 }
 
-type byPreference [][]*x509.Certificate
+type byPreference struct {
+	chains [][]*x509.Certificate
+	now    time.Time
+}
 
-func (c byPreference) Len() int      { return len(c) }
-func (c byPreference) Swap(i, j int) { c[i], c[j] = c[j], c[i] }
+func (c byPreference) Len() int      { return len(c.chains) }
+func (c byPreference) Swap(i, j int) { c.chains[i], c.chains[j] = c.chains[j], c.chains[i] }
 func (c byPreference) Less(i, j int) bool {
-	ci, cj := c[i][0], c[j][0]
+	ci, cj := c.chains[i][0], c.chains[j][0]
 
 	if ci.SignatureAlgorithm != cj.SignatureAlgorithm {
 		return ci.SignatureAlgorithm > cj.SignatureAlgorithm
 	}
 
-	now := time.Now()
 	// expired cert is "More" than not-expired one
-	if ci.NotAfter.After(now) || ci.NotBefore.Before(now) {
-		return false
-	} else if cj.NotAfter.After(now) || cj.NotBefore.Before(now) {
-		return true
+	ciValid := !c.now.Before(ci.NotBefore) && !c.now.After(ci.NotAfter)
+	cjValid := !c.now.Before(cj.NotBefore) && !c.now.After(cj.NotAfter)
+	if ciValid != cjValid {
+		return ciValid
 	}
 
 	if !ci.NotBefore.Equal(cj.NotBefore) {
@@ -61,7 +63,7 @@ func PickBestApkCert(chains [][]*x509.Certificate) (*CertInfo, *x509.Certificate
 		return nil, nil
 	}
 
-	sort.Sort(byPreference(chains))
+	sort.Sort(byPreference{chains, time.Now()})
 
 	return NewCertInfo(chains[0][0]), chains[0][0]
 }
-- 
2.43.0


From a902f5eea1f0bc218bb8e6c0bc5d394a34889940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 11/32] fix: source stamp: do not let the map order pick the
 signature to verify

---
 signingblock/sourcestamp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 9e538c1..7a10106 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -282,7 +282,13 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 			minProvidedSignaturesVersion = sigMin
 		}
 
-		if c := candidates[sigMin]; c == nil || compareAlgos(algo, c.algo) > 0 {
+		// The map order must not pick the winner, the lower id wins if the digests are of the same kind
+		var cmp int
+		c := candidates[sigMin]
+		if c != nil {
+			cmp = compareAlgos(algo, c.algo)
+		}
+		if c == nil || cmp > 0 || (cmp == 0 && algo < c.algo) {
 			candidates[sigMin] = &signature{algo, content}
 		}
 	}
-- 
2.43.0


From 402be362481fd0433ddf0fdd0d8ef2e6da672a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 12/32] fix: v1: don't panic on unknown algorithms or
 mismatched keys of a signer

---
 schemev1.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 63d5d56..a013af7 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -712,7 +712,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("Unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -879,7 +879,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0


From 2a754880b736d188bb10315caebbfb7fbae302e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 13/32] fix: don't panic on a manifest which ends right after a
 colon

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 77a95a4..9423f41 100644
--- a/manifest.go
+++ b/manifest.go
@@ -158,7 +158,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
-- 
2.43.0


From fe56af630d693075d97bc5dee708eb37ffb48832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 14/32] fix: frosting: don't panic on a negative key index

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..949bb5a 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -288,7 +288,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 
 		keyIndex, err := f.readInt32(bf)
 		keys := strings.Split(frostingPublicKeys, ",")
-		if err != nil || int(keyIndex) >= len(keys) {
+		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
 
-- 
2.43.0


From 474853c587e64b4539de45628a5414ae123040d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 15/32] fix: don't panic on block signatures which don't match
 the key

---
 signingblock/utils.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..d7b1c46 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,27 +37,48 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	rsaKey, isRsa := publicKey.(*rsa.PublicKey)
+	ecdsaKey, isEcdsa := publicKey.(*ecdsa.PublicKey)
+	dsaKey, isDsa := publicKey.(*dsa.PublicKey)
+
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigVerityRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512:
+		if !isRsa {
+			return fmt.Errorf("signature type 0x%04x does not match the public key %T", int32(algo), publicKey)
+		}
+	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigVerityEcdsaWithSha256:
+		if !isEcdsa {
+			return fmt.Errorf("signature type 0x%04x does not match the public key %T", int32(algo), publicKey)
+		}
+	case SigDsaWithSha256, SigVerityDsaWithSha256:
+		if !isDsa {
+			return fmt.Errorf("signature type 0x%04x does not match the public key %T", int32(algo), publicKey)
+		}
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
-		return rsa.VerifyPSS(publicKey.(*rsa.PublicKey), crypto.SHA256, hashed[:], signature, &rsa.PSSOptions{
+		return rsa.VerifyPSS(rsaKey, crypto.SHA256, hashed[:], signature, &rsa.PSSOptions{
 			SaltLength: 256 / 8,
 		})
 	case SigRsaPssWithSha512:
 		hashed := sha512.Sum512(signedDataBytes)
-		return rsa.VerifyPSS(publicKey.(*rsa.PublicKey), crypto.SHA512, hashed[:], signature, &rsa.PSSOptions{
+		return rsa.VerifyPSS(rsaKey, crypto.SHA512, hashed[:], signature, &rsa.PSSOptions{
 			SaltLength: 512 / 8,
 		})
 	case SigRsaPkcs1V15WithSha256, SigVerityRsaPkcs1V15WithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
-		return rsa.VerifyPKCS1v15(publicKey.(*rsa.PublicKey), crypto.SHA256, hashed[:], signature)
+		return rsa.VerifyPKCS1v15(rsaKey, crypto.SHA256, hashed[:], signature)
 	case SigRsaPkcs1V15WithSha512:
 		hashed := sha512.Sum512(signedDataBytes)
-		return rsa.VerifyPKCS1v15(publicKey.(*rsa.PublicKey), crypto.SHA512, hashed[:], signature)
+		return rsa.VerifyPKCS1v15(rsaKey, crypto.SHA512, hashed[:], signature)
 	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
 		var params []*big.Int
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
+		} else if len(params) < 2 {
+			return fmt.Errorf("failed to unmarshal ECDSA signature: only %d values", len(params))
 		}
 
 		var hashed []byte
@@ -73,13 +94,14 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		}
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
-			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
-			if !dsa.Verify(k, hashed, params[0], params[1]) {
+			if qLen := dsaKey.Q.BitLen() / 8; qLen < len(hashed) {
+				hashed = hashed[:qLen]
+			}
+			if !dsa.Verify(dsaKey, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
 		} else {
-			if !ecdsa.Verify(publicKey.(*ecdsa.PublicKey), hashed, params[0], params[1]) {
+			if !ecdsa.Verify(ecdsaKey, hashed, params[0], params[1]) {
 				return errors.New("ECDSA verification failed.")
 			}
 		}
-- 
2.43.0


From f80d981cfc3949f1daf02f0fffeade6c7202d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 16/32] fix: pkcs7: don't panic or overflow the stack on
 malformed BER

---
 fullsailor/pkcs7/ber.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..dead096 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -61,7 +61,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +132,32 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// maxBerDepth limits how deep can the objects be nested, far above what real signatures need.
+const maxBerDepth = 256
+
+var errBerTruncated = errors.New("ber2der: BER object is truncated")
+
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxBerDepth {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deep")
+	}
+	if offset >= len(ber) {
+		return nil, 0, errBerTruncated
+	}
 	tagStart := offset
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errBerTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -159,6 +173,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	*/
 	// read length
 	var length int
+	if offset >= len(ber) {
+		return nil, 0, errBerTruncated
+	}
 	l := ber[offset]
 	offset++
 	indefinite := false
@@ -167,6 +184,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errBerTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -189,7 +209,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 
 	//fmt.Printf("--> length        : %d\n", length)
 	contentEnd := offset + length
-	if contentEnd > len(ber) {
+	if length > len(ber)-offset {
 		return nil, 0, errors.New("ber2der: BER tag length is more than available data")
 	}
 	//fmt.Printf("--> content start : %d\n", offset)
@@ -210,7 +230,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From c20b9461c04f39a32df332cf4e01c2787fe95a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 17/32] fix: v3: lineage signed with RSA-PSS SHA-256 is
 supported since Android 7

---
 signingblock/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/signer.go b/signingblock/signer.go
index 200d252..a742755 100644
--- a/signingblock/signer.go
+++ b/signingblock/signer.go
@@ -107,7 +107,7 @@ func (algo SignatureAlgorithm) getDigestType() contentDigest {
 
 func (algo SignatureAlgorithm) getMinSdkVersion() int32 {
 	switch algo {
-	case SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256:
 		return apilevel.V7_0_Nougat
 	case SigVerityRsaPkcs1V15WithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
-- 
2.43.0


From e42a429d82bcd7a279405ebac4cdce05bed84668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 18/32] fix: v1: a file with the directory attribute in the ZIP
 was not verified

---
 schemev1.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index a013af7..0446b81 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -451,7 +451,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
 	for path := range p.manifest.entries {
-		if _, prs := apk.File[path]; !prs {
+		if f, prs := apk.File[path]; !prs || isDirectory(f) {
 			return fmt.Errorf("Manifest entry '%s' does not exists.", path)
 		}
 	}
@@ -462,7 +462,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	hasBundleConfig := false
 	for _, zf := range apk.FilesOrdered {
 		path := zf.Name
-		if zf.IsDir || seen[path] {
+		if isDirectory(zf) || seen[path] {
 			continue
 		}
 		seen[path] = true
@@ -521,6 +521,13 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	return nil
 }
 
+// isDirectory decides by the name in the ZIP, as Android does. The file attributes are not protected
+// by the signature, so a file which only has the directory bit set must be verified as well.
+func isDirectory(f *apkparser.ZipReaderFile) bool {
+	header := f.ZipHeader()
+	return f.IsDir && (header == nil || strings.HasSuffix(header.Name, "/"))
+}
+
 func (p *schemeV1) certChainsMatch(a, b [][]*x509.Certificate) bool {
 	if len(a) != len(b) {
 		return false
-- 
2.43.0


From a19d0eb5cd851fffd49b001bb9320532996c9c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 19/32] fix: read hexadecimal SDK and sandbox versions from the
 manifest

Integers typed as hexadecimal in the binary XML made parsing of the manifest
fail, and with the v1 scheme the sandbox and target SDK rules were skipped.
---
 apkverifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apkverifier.go b/apkverifier.go
index 6b2ffc1..99127ea 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
@@ -239,6 +240,15 @@ func (e *sandboxVersionEncoder) Flush() error {
 func (e *sandboxVersionEncoder) getAttrIntValue(st *xml.StartElement, name string) (int32, error) {
 	for _, attr := range st.Attr {
 		if attr.Name.Local == name {
+			// integers written in hexadecimal stay that way in the binary XML
+			if strings.HasPrefix(attr.Value, "0x") {
+				val, err := strconv.ParseUint(attr.Value[2:], 16, 32)
+				if err != nil {
+					return 0, fmt.Errorf("failed to decode %s '%s': %s", name, attr.Value, err.Error())
+				}
+				return int32(val), nil
+			}
+
 			val, err := strconv.ParseInt(attr.Value, 10, 32)
 			if err != nil {
 				return 0, fmt.Errorf("failed to decode %s '%s': %s", name, attr.Value, err.Error())
-- 
2.43.0


From 95b8f6ef9b87d3558b6378f4759081a4bf0491cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 20/32] fix: PickBestApkCert: compare certificates valid for
 longer than 292 years

---
 certinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/certinfo.go b/certinfo.go
index be65c2f..a00eaf3 100644
--- a/certinfo.go
+++ b/certinfo.go
@@ -51,7 +51,7 @@ func (c byPreference) Less(i, j int) bool {
 	}
 
 	if !ci.NotAfter.Equal(cj.NotAfter) {
-		return ci.NotAfter.Sub(ci.NotBefore) > cj.NotAfter.Sub(cj.NotBefore)
+		return ci.NotAfter.After(cj.NotAfter)
 	}
 	return bytes.Compare(ci.Raw, cj.Raw) > 0
 }
-- 
2.43.0


From bccc1e2158630b60fd0c28e2c528bc37d34b93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 21/32] fix: source stamp: report an empty lineage as an error

---
 signingblock/sourcestamp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 7a10106..3baf092 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -474,6 +474,10 @@ func (v *sourceStampVerifier) parseStampCertLineage(lineage *bytes.Buffer) []*So
 			Flags:      flags,
 		})
 	}
+
+	if len(res) == 0 {
+		v.addError("no certificates in the lineage")
+	}
 	return res
 }
 
-- 
2.43.0


From 68984077f8f5ff69522172769969c25e16c82443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:16 +0000
Subject: [PATCH 22/32] fix: extract v1 certificates of the SignerInfo the
 newest platforms use

---
 schemev1.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 0446b81..02a8346 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -161,7 +161,11 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	var signatureErrors []error
 	for _, sigName := range scheme.sigOrder {
 		sig := scheme.sigs[sigName]
-		sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
+		// The newest platforms pick the first SignerInfo which verifies, the older ones only look at the first one
+		sig.chain, err = scheme.verifySignature(sig, apilevel.V7_0_Nougat, maxSdkVersion)
+		if err != nil {
+			sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
+		}
 		if sig.chain != nil {
 			scheme.chain = append(scheme.chain, sig.chain)
 		}
-- 
2.43.0


From 0dc08987bdeb8a3c285081760fe9c628c258dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 23/32] fix: v1: compare the names of certificates by their DER
 encoding

Names went through pkix.Name, which drops attributes it doesn't know (such as
the e-mail address) and doesn't keep escaped characters, so the wrong
certificate was taken for the signer or its issuer.
---
 schemev1.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 02a8346..c8b38fe 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -695,14 +695,12 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		if _, err := asn1andr.Unmarshal(info.IssuerAndSerialNumber.IssuerName.FullBytes, &issuerSeq); err != nil {
 			return nil, err
 		}
-		var issuer pkix.Name
-		issuer.FillFromRDNSequence(&issuerSeq)
-		issuerCanonical := p.pkixCanonical(&issuer)
+		issuerCanonical := p.pkixCanonicalSeq(issuerSeq)
 
 		snum := info.IssuerAndSerialNumber.SerialNumber
 		signerCertIndex := -1
 		for i, crt := range sig.cert.Certificates {
-			if snum.Cmp(crt.SerialNumber) == 0 && issuerCanonical == p.pkixCanonical(&crt.Issuer) {
+			if snum.Cmp(crt.SerialNumber) == 0 && issuerCanonical == p.pkixCanonical(crt.RawIssuer) {
 				signerCertIndex = i
 				break
 			}
@@ -815,15 +813,15 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 
 	// load cert chain if not self-signed
 	chain = []*x509.Certificate{firstVerifiedSignerCert}
-	if p.pkixCanonical(&firstVerifiedSignerCert.Issuer) == p.pkixCanonical(&firstVerifiedSignerCert.Subject) {
+	if p.pkixCanonical(firstVerifiedSignerCert.RawIssuer) == p.pkixCanonical(firstVerifiedSignerCert.RawSubject) {
 		return chain, nil
 	}
 
-	issuerCanonical := p.pkixCanonical(&firstVerifiedSignerCert.Issuer)
+	issuerCanonical := p.pkixCanonical(firstVerifiedSignerCert.RawIssuer)
 	for {
 		var issuerCert *x509.Certificate
 		for _, crt := range sig.cert.Certificates {
-			if issuerCanonical == p.pkixCanonical(&crt.Subject) {
+			if issuerCanonical == p.pkixCanonical(crt.RawSubject) {
 				issuerCert = crt
 				break
 			}
@@ -838,8 +836,8 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			break
 		}
 
-		issuerCanonical = p.pkixCanonical(&issuerCert.Issuer)
-		if issuerCanonical == p.pkixCanonical(&issuerCert.Subject) {
+		issuerCanonical = p.pkixCanonical(issuerCert.RawIssuer)
+		if issuerCanonical == p.pkixCanonical(issuerCert.RawSubject) {
 			break
 		}
 	}
@@ -967,8 +965,13 @@ func (a byX501Canonical) Less(i, j int) bool {
 	return false
 }
 
-func (p *schemeV1) pkixCanonical(n *pkix.Name) string {
-	return p.pkixCanonicalSeq(n.ToRDNSequence())
+// pkixCanonical takes the DER encoded name, because pkix.Name forgets attributes which it does not know.
+func (p *schemeV1) pkixCanonical(rawName []byte) string {
+	var seq pkix.RDNSequence
+	if _, err := asn1andr.Unmarshal(rawName, &seq); err != nil {
+		return string(rawName)
+	}
+	return p.pkixCanonicalSeq(seq)
 }
 
 func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
@@ -1003,6 +1006,7 @@ func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
 						res.WriteByte(' ')
 					case '"', '\\', ',', '+', '<', '>', ';':
 						res.WriteByte('\\')
+						fallthrough
 					default:
 						res.WriteByte(val[index])
 					}
-- 
2.43.0


From f0a5ab0c9102a7b188da94c5d1a8530dfcee8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 24/32] fix: v1: verify MD5 and SHA digests on the platforms
 that use them

Platforms before 18 honour Digest-Algorithms, which names MD5 or SHA in files of
older signing tools. There was no hasher for these, so correct signatures were
rejected.
---
 schemev1.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index c8b38fe..92ee7bb 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -34,8 +34,8 @@ import (
 	"github.com/avast/apkverifier/fullsailor/pkcs7"
 )
 
-// These two arrays are synchronized
 var (
+	// Every one of these is in digestHashers as well
 	digestAlgorithms = [...]string{
 		"sha-512",
 		"sha-384",
@@ -47,6 +47,10 @@ var (
 		"sha-384": sha512.New384,
 		"sha-256": sha256.New,
 		"sha1":    sha1.New,
+
+		// Only platforms before API level 18 look at these
+		"sha": sha1.New,
+		"md5": md5.New,
 	}
 )
 
@@ -605,10 +609,11 @@ func (p *schemeV1) getDigestsToVerify(entry map[string]string, suffix string, mi
 	if maxSdkVersion >= 18 {
 		for _, algo := range digestAlgorithms {
 			if _, prs := entry[algo+suffix]; prs {
-				res = append(res, algo)
-				break
+				return append(res, algo)
 			}
 		}
+		// A digest for the older platforms is not enough
+		return nil
 	}
 
 	return res
-- 
2.43.0


From 527eae7255fa9b6e16dea76aef331d5d1355056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:50 +0000
Subject: [PATCH 25/32] fix: v1: keep signatures of the same name in different
 directories apart

---
 schemev1.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 92ee7bb..71c2f97 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -19,7 +19,6 @@ import (
 	"io"
 	"io/ioutil"
 	"math/big"
-	"path/filepath"
 	"sort"
 	"strconv"
 	"strings"
@@ -311,9 +310,9 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 }
 
 func (p *schemeV1) signaturePrefix(pathUpper string) string {
-	fn := filepath.Base(pathUpper)
-	idx := strings.LastIndexByte(fn, '.')
-	return fn[:idx]
+	// with the directory, META-INF/CERT.RSA and META-INF/x/CERT.RSA are two signatures
+	idx := strings.LastIndexByte(pathUpper, '.')
+	return pathUpper[:idx]
 }
 
 func (p *schemeV1) prepForVerification() error {
-- 
2.43.0


From bfb6455d1255b59b7a3f57975d3976b6aeced899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 26/32] fix: apply the sandbox and target version rules if
 another version can't be decoded

The versions which were declared were forgotten when another attribute couldn't be
decoded, such as the codename of a preview platform, and so a v1 signature was
enough.
---
 apkverifier.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apkverifier.go b/apkverifier.go
index 99127ea..41dc32e 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -214,16 +214,16 @@ func (e *sandboxVersionEncoder) EncodeToken(t xml.Token) error {
 			return err
 		}
 	case "uses-sdk":
-		val, err := e.getAttrIntValue(&st, "minSdkVersion")
+		val, err := e.getAttrIntValue(&st, "targetSdkVersion")
 		if err == nil {
-			e.minSdkVersion = val
+			e.targetSdkVersion = val
 		} else if err != io.EOF {
 			return err
 		}
 
-		val, err = e.getAttrIntValue(&st, "targetSdkVersion")
+		val, err = e.getAttrIntValue(&st, "minSdkVersion")
 		if err == nil {
-			e.targetSdkVersion = val
+			e.minSdkVersion = val
 		} else if err != io.EOF {
 			return err
 		}
@@ -293,7 +293,8 @@ func getManifestInfo(zip *apkparser.ZipReader) (minSdkVersion, targetSdkVersion,
 			if rec.err != nil && !manifest.Next() {
 				err = &unreadableFileError{err}
 			}
-			return
+			// the rules apply for what was declared up to the error
+			return 0, enc.targetSdkVersion, enc.sandboxVersion, err
 		}
 		return enc.minSdkVersion, enc.targetSdkVersion, enc.sandboxVersion, nil
 	}
-- 
2.43.0


From 22f3f89ca4d22c7d9452defde1e6ea0070bf834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 27/32] fix: v1: reject signature files with digests which
 don't match the manifest

With several signatures, the file was accepted if at least one of them matched. Android rejects
it, and only ignores signature files with entries which are not in the manifest.
---
 schemev1.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 71c2f97..35cabb0 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -409,13 +409,22 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 		// file entries only checked if the whole-manifest fails/is not present
 		if err != nil {
+			// Android ignores a signature file with an entry which is not in the manifest
+			ignored := false
+			for name := range sm.entries {
+				if _, prs := p.manifest.chunks[name]; !prs {
+					err = fmt.Errorf("Signature entry %s not in manifest.mf file.", name)
+					ignored = true
+					break
+				}
+			}
+			if ignored {
+				continue
+			}
+
 			for name, attrs := range sm.entries {
 				err = p.verifyManifestEntry(attrs, attrDigestSuffix, minSdkVersion, maxSdkVersion, func(hash []byte, hasher hash.Hash) error {
-					data, prs := p.manifest.chunks[name]
-					if !prs {
-						return fmt.Errorf("Signature entry %s not in manifest.mf file.", name)
-					}
-
+					data := p.manifest.chunks[name]
 					if createdBySigntool && bytes.HasSuffix(data, []byte{'\n', '\n'}) {
 						hasher.Write(data[:len(data)-1])
 					} else {
@@ -432,6 +441,11 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					break
 				}
 			}
+
+			// but it rejects the file if an entry does not match
+			if err != nil && len(sm.entries) != 0 {
+				signatureErrors = append(signatureErrors, fmt.Errorf("%s: %s", sig.sigBlockFilename, err))
+			}
 		}
 
 		if err == nil {
-- 
2.43.0


From 5903c3258ad86645c1410400170637cbff4e50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 28/32] fix: v1: don't extract certificates of signature files
 without a version

The verification ignores them, as Android does.
---
 schemev1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index 35cabb0..2aafdbc 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -164,6 +164,10 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	var signatureErrors []error
 	for _, sigName := range scheme.sigOrder {
 		sig := scheme.sigs[sigName]
+		if _, prs := sig.signatureManifest.main[attrSignatureVersion]; !prs {
+			continue // not used by the verification either
+		}
+
 		// The newest platforms pick the first SignerInfo which verifies, the older ones only look at the first one
 		sig.chain, err = scheme.verifySignature(sig, apilevel.V7_0_Nougat, maxSdkVersion)
 		if err != nil {
-- 
2.43.0


From 6ac27b815ecf2dbd175c64b042c93291d9dd8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:01 +0000
Subject: [PATCH 29/32] fix: manifest: don't panic on an empty continuation
 line

---
 manifest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 9423f41..07e4954 100644
--- a/manifest.go
+++ b/manifest.go
@@ -206,7 +206,9 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			continue
 		case ' ':
 			if ctx.consecutiveLineBreaks == 1 {
-				value += string(ctx.data[mark:last])
+				if last > mark {
+					value += string(ctx.data[mark:last])
+				}
 				mark = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
-- 
2.43.0


From ce833a61e4e46ee9fc8e18688d8d2c06af87569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:44 +0000
Subject: [PATCH 30/32] fix: v1: certificates which don't allow digital
 signatures don't vouch for a signature

---
 schemev1.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index 2aafdbc..7ce202a 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -63,6 +63,7 @@ var (
 	oidAttributeContentType   = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}
 	oidAttributeMessageDigest = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
 	oidDigestAlgorithmSHA1    = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 26}
+	oidExtensionKeyUsage      = asn1.ObjectIdentifier{2, 5, 29, 15}
 	oidDigestAlgorithmSHA256  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
 )
 
@@ -739,6 +740,10 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			return chain, errors.New("Certificate has unhandled critical extensions.")
 		}
 
+		if !p.mayVerifySignatures(signerCert) {
+			return chain, errors.New("Certificate is not authorized for use in digital signatures.")
+		}
+
 		da := info.DigestAlgorithm.Algorithm.String()
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
@@ -867,6 +872,21 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 	return chain, nil
 }
 
+// mayVerifySignatures returns false if the certificate has the key usage extension, and it allows
+// neither the digitalSignature nor the nonRepudiation usage.
+func (p *schemeV1) mayVerifySignatures(cert *x509.Certificate) bool {
+	if cert.KeyUsage&(x509.KeyUsageDigitalSignature|x509.KeyUsageContentCommitment) != 0 {
+		return true
+	}
+
+	for _, ext := range cert.Extensions {
+		if ext.Id.Equal(oidExtensionKeyUsage) {
+			return false
+		}
+	}
+	return true
+}
+
 type dsaSignature struct {
 	R, S *big.Int
 }
-- 
2.43.0


From 8a78c9aa8c5167af1742f2143dc8343375c913cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:13 +0000
Subject: [PATCH 31/32] fix: only the manifest element itself and its uses-sdk
 child declare sdk and sandbox versions

Elements with the same names elsewhere in AndroidManifest.xml overrode them.
---
 apkverifier.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apkverifier.go b/apkverifier.go
index 41dc32e..f8e4925 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -197,23 +197,29 @@ type sandboxVersionEncoder struct {
 	minSdkVersion    int32
 	targetSdkVersion int32
 	sandboxVersion   int32
+
+	depth int
 }
 
 func (e *sandboxVersionEncoder) EncodeToken(t xml.Token) error {
 	st, ok := t.(xml.StartElement)
 	if !ok {
+		if _, ok = t.(xml.EndElement); ok {
+			e.depth--
+		}
 		return nil
 	}
 
-	switch st.Name.Local {
-	case "manifest":
+	e.depth++
+	switch {
+	case e.depth == 1 && st.Name.Local == "manifest":
 		val, err := e.getAttrIntValue(&st, "targetSandboxVersion")
 		if err == nil {
 			e.sandboxVersion = val
 		} else if err != io.EOF {
 			return err
 		}
-	case "uses-sdk":
+	case e.depth == 2 && st.Name.Local == "uses-sdk":
 		val, err := e.getAttrIntValue(&st, "targetSdkVersion")
 		if err == nil {
 			e.targetSdkVersion = val
@@ -286,7 +292,7 @@ func getManifestInfo(zip *apkparser.ZipReader) (minSdkVersion, targetSdkVersion,
 	defer manifest.Close()
 
 	for manifest.Next() {
-		enc := sandboxVersionEncoder{1, 0, 1}
+		enc := sandboxVersionEncoder{minSdkVersion: 1, sandboxVersion: 1}
 		rec := errorRecorder{r: manifest}
 		if err = apkparser.ParseXml(&rec, &enc, nil); err != nil {
 			err = fmt.Errorf("failed to parse AndroidManifest.xml: %w", err)
-- 
2.43.0


From c62ecb8c85f701300244fbad16252f7e176a993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:14 +0000
Subject: [PATCH 32/32] fix: attributes without a namespace declare no sdk or
 sandbox version

The platform finds android:minSdkVersion and the others by resource id; an
attribute with just the same local name lowered or raised them.
---
 apkverifier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apkverifier.go b/apkverifier.go
index f8e4925..7dabacc 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -245,7 +245,8 @@ func (e *sandboxVersionEncoder) Flush() error {
 
 func (e *sandboxVersionEncoder) getAttrIntValue(st *xml.StartElement, name string) (int32, error) {
 	for _, attr := range st.Attr {
-		if attr.Name.Local == name {
+		// The platform looks these attributes up by their resource id, which only those with a namespace have
+		if attr.Name.Local == name && attr.Name.Space != "" {
 			// integers written in hexadecimal stay that way in the binary XML
 			if strings.HasPrefix(attr.Value, "0x") {
 				val, err := strconv.ParseUint(attr.Value[2:], 16, 32)
-- 
2.43.0

