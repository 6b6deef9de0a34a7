From 514d085715ef8dedc9084fef1e7d824143b3cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 01/39] fix: hash a receipt from its secret and its signature

---
 domain/receipts/builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..e1a55a9 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,10 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 75a4d168038086fb0c551cb542a7249253d10df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 02/39] fix: hash a private transaction from its private key
 and its receipt

---
 domain/transactions/privates/private_builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..098742b 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,10 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		[]byte(app.pk.String()),
+		app.receipt.Hash().Bytes(),
+	})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 06a7e7f3cbce53adeb571e9ef316635e5e4a39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 03/39] fix: delimit the rows hashed together, so that
 different rows do not share a hash

---
 domain/hash/adapter.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/domain/hash/adapter.go b/domain/hash/adapter.go
index e6c0cc1..7a9b423 100644
--- a/domain/hash/adapter.go
+++ b/domain/hash/adapter.go
@@ -2,6 +2,7 @@ package hash
 
 import (
 	"crypto/sha512"
+	"encoding/binary"
 	"encoding/hex"
 )
 
@@ -35,12 +36,18 @@ func (app *adapter) FromBytes(input []byte) (*Hash, error) {
 
 // FromMultiBytes converts multiple []byte to an Hash
 func (app *adapter) FromMultiBytes(input [][]byte) (*Hash, error) {
-	merged := []byte{}
+	// every row is prefixed by its length, so that different rows never merge to the same content
+	h := sha512.New()
 	for _, oneRow := range input {
-		merged = append(merged, oneRow...)
+		length := make([]byte, 8)
+		binary.BigEndian.PutUint64(length, uint64(len(oneRow)))
+		_, err := h.Write(append(length, oneRow...))
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	return app.FromBytes(merged)
+	return app.FromBytes(h.Sum(nil))
 }
 
 // FromString converts a string to an Hash
-- 
2.43.0


From 0b818fda34c8fa1dbeccdc5e15d174328c907be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 04/39] fix: reject ring signatures that are empty or
 inconsistent instead of accepting them or panicking

---
 domain/cryptography/keys/signature/ringsignature.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/domain/cryptography/keys/signature/ringsignature.go b/domain/cryptography/keys/signature/ringsignature.go
index 1ca0874..cfed98e 100644
--- a/domain/cryptography/keys/signature/ringsignature.go
+++ b/domain/cryptography/keys/signature/ringsignature.go
@@ -30,6 +30,12 @@ func (app *ringSignature) Ring() []PublicKey {
 
 // Verify verifies if the message has been signed by at least 1 shared signature
 func (app *ringSignature) Verify(msg string) bool {
+	// a ring without keys, or whose amount of scalars does not match, signs nothing:
+	amount := len(app.ring)
+	if amount <= 0 || len(app.s) != amount {
+		return false
+	}
+
 	// random base:
 	g := curve.Point().Base()
 
@@ -37,7 +43,6 @@ func (app *ringSignature) Verify(msg string) bool {
 	e := app.e
 
 	//e = H(m || s[i] * G + e * P[i]);
-	amount := len(app.ring)
 	for i := 0; i < amount; i++ {
 		sg := curve.Point().Mul(app.s[i], g)
 		ep := curve.Point().Mul(e, app.ring[i].Point())
-- 
2.43.0


From 484a51b2ff1f22f666bff8e2fa6ad6a2dbe6e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 05/39] fix: pick a new random k every time a message is signed

---
 domain/cryptography/keys/signature/helper.go     | 5 +++--
 domain/cryptography/keys/signature/privatekey.go | 7 +++----
 domain/cryptography/keys/signature/sdk.go        | 1 -
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 8de7896..7983a28 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -15,8 +15,9 @@ func createHash(msg string) kyber.Scalar {
 	return curve.Scalar().SetBytes(sha256.Sum(nil))
 }
 
-func genK(x kyber.Scalar, msg string) kyber.Scalar {
-	return createHash(msg + x.String())
+// genK picks a new random scalar, because using the same one in 2 signatures reveals the private key
+func genK() kyber.Scalar {
+	return curve.Scalar().Pick(curve.RandomStream())
 }
 
 func fromStringToScalar(str string) (kyber.Scalar, error) {
diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1546d25..1b1d90c 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -2,7 +2,6 @@ package signature
 
 import (
 	"errors"
-	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -46,7 +45,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	}
 
 	// generate k:
-	k := genK(app.x, msg)
+	k := genK()
 
 	// random base:
 	g := curve.Point().Base()
@@ -65,7 +64,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
-		ss[i] = genK(app.x, fmt.Sprintf("%s%d", msg, i))
+		ss[i] = genK()
 
 		//eiPlus1ModR = H(m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
@@ -84,7 +83,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 // Sign signs a message
 func (app *privateKey) Sign(msg string) (Signature, error) {
 	// generate k:
-	k := genK(app.x, msg)
+	k := genK()
 
 	// random base:
 	g := curve.Point().Base()
diff --git a/domain/cryptography/keys/signature/sdk.go b/domain/cryptography/keys/signature/sdk.go
index 71d2531..8c3a764 100644
--- a/domain/cryptography/keys/signature/sdk.go
+++ b/domain/cryptography/keys/signature/sdk.go
@@ -12,7 +12,6 @@ import (
  * e = H(m || k * G)
  * k = s + e * x
  * s = k – e * x
- * k = H(m || x) -> to generate a new k, since nobody but us knows x
  * where ...
  * 1. H is a hash function, for instance SHA256.
  * 2. s and e are 2 numbers forming the ring signature
-- 
2.43.0


From a3ce892ae576d9232293dfa32e27ea7153782c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 06/39] fix: initialize the shared builders before they are
 used

---
 domain/cryptography/keys/encryption/adapter.go  | 2 +-
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 domain/languages/lexers/roots/adapter.go        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/cryptography/keys/encryption/adapter.go b/domain/cryptography/keys/encryption/adapter.go
index f732434..e724f78 100644
--- a/domain/cryptography/keys/encryption/adapter.go
+++ b/domain/cryptography/keys/encryption/adapter.go
@@ -24,7 +24,7 @@ func (app *adapter) FromBytes(bytes []byte) (PrivateKey, error) {
 		return nil, err
 	}
 
-	return app.builder.WithPK(*pk).Now()
+	return app.builder.Create().WithPK(*pk).Now()
 }
 
 // FromEncoded converts an encoded string to PrivateKey
diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..fa9dce2 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -31,7 +31,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 	builder := app.builder.Create().WithInput(input)
 	if content.IsConstant() {
 		constant := content.Constant()
-		group, err := app.groupBuilder.WithName(constant).WithList([]string{
+		group, err := app.groupBuilder.Create().WithName(constant).WithList([]string{
 			constant,
 		}).Now()
 
diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..94ff840 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -102,7 +102,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 	nodesMap := map[string]Node{}
 	for name, containerList := range containersMap {
-		containers, err := app.containersBuilder.WithList(containerList).Now()
+		containers, err := app.containersBuilder.Create().WithList(containerList).Now()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a916e037f63e3c5d3c9bf1ac023c23cbc34c45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 07/39] fix: reject a peer whose port is negative

---
 domain/peers/peer_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..f6f14f5 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,12 +61,12 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		parsedPort, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
 
-		port := uint(portInt)
+		port := uint(parsedPort)
 		app.port = &port
 		app.host = sections[0]
 	}
-- 
2.43.0


From 6d61c9eae02cd5077f427d8d1a985e23dc89661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 08/39] fix: reject a cardinality whose amounts are negative

---
 domain/languages/lexers/cardinality/specific_adapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index 05e6421..1c96bdd 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -49,7 +49,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	builder := app.specificBuilder.Create()
 	sections := strings.Split(trimmedContent, app.rangeSeparator)
 	if len(sections) == 1 {
-		amount, err := strconv.Atoi(sections[0])
+		amount, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -58,7 +58,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	}
 
 	if len(sections) == 2 {
-		min, err := strconv.Atoi(sections[0])
+		min, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -66,7 +66,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 		rangeBuilder := app.rangeBuilder.Create().WithMinimum(uint(min))
 		trimmedSection := strings.TrimSpace(sections[1])
 		if trimmedSection != "" {
-			max, err := strconv.Atoi(trimmedSection)
+			max, err := strconv.ParseUint(trimmedSection, 10, strconv.IntSize)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 9356cc0d84f339565ae5bb75d11f659c7dd80589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 09/39] fix: return an error instead of panicking when a
 hashtree is built from an empty list of blocks

---
 domain/hashtree/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/hashtree/builder.go b/domain/hashtree/builder.go
index ab7d450..44809d2 100644
--- a/domain/hashtree/builder.go
+++ b/domain/hashtree/builder.go
@@ -31,7 +31,7 @@ func (app *builder) WithBlocks(blocks [][]byte) Builder {
 
 // Now builds a new HashTree instance
 func (app *builder) Now() (HashTree, error) {
-	if app.blocks != nil {
+	if len(app.blocks) > 0 {
 		return createHashTreeFromBlocks(app.blocks)
 	}
 
-- 
2.43.0


From ec14e669a6f45bc38affefcf5409e1cef70ec1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 10/39] fix: do not write the padding block of a hashtree in
 the list of the caller

---
 domain/hashtree/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 0d7bde0..6c9a088 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -14,7 +14,7 @@ type block struct {
 func createBlockFromData(data [][]byte) (Block, error) {
 
 	if len(data) <= 1 {
-		data = append(data, []byte(""))
+		data = append(append([][]byte{}, data...), []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-- 
2.43.0


From 8adbf7c323331e342a9547fea73f955a59e8daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 11/39] fix: expose the builder of the genesis units

---
 domain/genesis/sdk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index aec270e..3a878fd 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -13,6 +13,12 @@ func NewBuilder() Builder {
 	return createBuilder(hashAdapter)
 }
 
+// NewUnitsBuilder creates a new units builder
+func NewUnitsBuilder() UnitsBuilder {
+	hashAdapter := hash.NewAdapter()
+	return createUnitsBuilder(hashAdapter)
+}
+
 // NewUnitBuilder creates a new unit builder
 func NewUnitBuilder() UnitBuilder {
 	hashAdapter := hash.NewAdapter()
-- 
2.43.0


From 53ea430d0e8e41f6608db5bd1fd663a9a861770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 12/39] fix: reject an empty list of variable declarations

---
 .../scripts/base/parsers/variabledeclarations_builder.go        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
index 2f27638..4ae6466 100644
--- a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
+++ b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
@@ -27,7 +27,7 @@ func (app *variableDeclarationsBuilder) WithDeclarations(declarations []Variable
 
 // Now builds a new VariableDeclarations instance
 func (app *variableDeclarationsBuilder) Now() (VariableDeclarations, error) {
-	if app.list == nil && len(app.list) <= 0 {
+	if app.list != nil && len(app.list) <= 0 {
 		app.list = nil
 	}
 
-- 
2.43.0


From e0d67974574a53de6575d52987e45c84fdf41c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 13/39] fix: return an error instead of panicking when an
 include contains a single path

---
 domain/languages/lexers/references/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index b7c9417..18f03c1 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -108,7 +108,7 @@ func (app *adapter) includes(content string) (map[string]links.Include, error) {
 		pathStrings := strings.Split(oneMatch[2], app.pathSeparator)
 		amount := len(pathStrings)
 		name := oneMatch[1]
-		if amount > 3 {
+		if amount < 2 || amount > 3 {
 			str := fmt.Sprintf("the include (name: %s) must contain {2,3} (rules, tokens, channels (optional)) paths, %d paths provided", name, amount)
 			return nil, errors.New(str)
 		}
-- 
2.43.0


From 6643049c7af57d4e10afbff59776efb6786db4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 14/39] fix: return an error instead of panicking when the
 content of a rule is malformed

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a270047..933a48e 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -182,6 +182,11 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindStringSubmatch(content)
+	if matches == nil {
+		str := fmt.Sprintf("the rule (name: %s) contains invalid content: %s", ruleName, content)
+		return nil, errors.New(str)
+	}
+
 	cardinalityContent := strings.Replace(content, matches[0], "", 1)
 	cardinality, err := app.cardinalityAdapter.ToCardinality(cardinalityContent)
 	if err != nil {
-- 
2.43.0


From 4abfc47c8145f218b0b91bdf910e462c801749e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 15/39] fix: propagate the errors that happen while matching a
 serie

---
 domain/languages/lexers/containers/patterns/adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4058980..4edc12f 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -287,13 +287,13 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 
 		container, err := app.containerBuilder.Create().WithGroup(oneGroup).Now()
 		if err != nil {
-			return false, nil, nil, "", nil
+			return false, nil, nil, "", err
 		}
 
 		discovered := remaining[:amount]
 		discovery, err := app.discoveryBuilder.Create().WithContainer(container).WithContent(discovered).WithIndex(index).Now()
 		if err != nil {
-			return false, nil, nil, "", nil
+			return false, nil, nil, "", err
 		}
 
 		matchedDiscoveriesList = append(matchedDiscoveriesList, discovery)
-- 
2.43.0


From c61703819c128372fc6a2b68f3bbc38741028a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 16/39] fix: the remaining content of a matched group begins
 after its match

---
 domain/languages/lexers/containers/patterns/adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4edc12f..da27c29 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -131,8 +131,8 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 		}
 
 		builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
-		if matchedAmount < uint(len(content)) {
-			builder.WithRemaining(content[matchedAmount:])
+		if uint(len(subContent)) > matchedAmount {
+			builder.WithRemaining(subContent[matchedAmount:])
 		}
 
 		ins, err := builder.Now()
-- 
2.43.0


From 676faff045e21064113fc2a8efe0ba72b295c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 17/39] fix: a token with exceptions is valid only if its
 mandatory lines are

---
 domain/languages/lexers/asts/tokens/tokencontent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokencontent.go b/domain/languages/lexers/asts/tokens/tokencontent.go
index 509136e..025dd92 100644
--- a/domain/languages/lexers/asts/tokens/tokencontent.go
+++ b/domain/languages/lexers/asts/tokens/tokencontent.go
@@ -32,8 +32,8 @@ func createTokenContentInternally(
 
 // IsValid returns true if the token is valid, false otherwise
 func (obj *tokenContent) IsValid() bool {
-	if obj.HasNot() {
-		return !obj.Not().Matches().IsValid()
+	if obj.HasNot() && obj.Not().Matches().IsValid() {
+		return false
 	}
 
 	return obj.must.Matches().IsValid()
-- 
2.43.0


From f3bd77f506e9d3f56d28465f929b79b8f507fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 18/39] fix: the suffix of a result begins after its content

---
 domain/languages/lexers/asts/adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..396a3e7 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -280,7 +280,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	inputLength := uint(len(input))
 	contentWithPrefixLength := firstIndex + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
@@ -314,7 +314,7 @@ func (app *adapter) results(rule string, results ast_results.Result) (Result, er
 	inputLength := uint(len(input))
 	contentWithPrefixLength := index + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
-- 
2.43.0


From 239101158c2be476939d1806c5b0504fd648c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 19/39] fix: do not reuse the root of a token for another token
 that has the same content

---
 domain/languages/lexers/roots/adapter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 94ff840..4cd1d4c 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -1,6 +1,8 @@
 package roots
 
 import (
+	"fmt"
+
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
 )
 
@@ -127,15 +129,19 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, err
 	}
 
-	app.tokenRoots[content] = ins
+	app.tokenRoots[rootKeyname(name, content)] = ins
 	return ins, nil
 }
 
 func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
+	keyname := rootKeyname(token.Name(), token.Discovery())
+	if ref, ok := app.tokenRoots[keyname]; ok {
 		return ref, nil
 	}
 
 	return app.toRoot(token)
 }
+
+func rootKeyname(name string, content string) string {
+	return fmt.Sprintf("%s:%s", name, content)
+}
-- 
2.43.0


From 0fffb9e5c4190265877ff880d0404efaf2f4a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 20/39] fix: scan the nodes in a stable order, the direct ones
 first

---
 domain/languages/lexers/roots/nodes.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..99134d5 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -3,6 +3,7 @@ package roots
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 type nodes struct {
@@ -41,7 +42,18 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
-	for _, node := range obj.list {
+	if node, ok := obj.list[name]; ok {
+		return nil, node, nil, "", nil
+	}
+
+	keynames := []string{}
+	for keyname := range obj.list {
+		keynames = append(keynames, keyname)
+	}
+
+	sort.Strings(keynames)
+	for _, keyname := range keynames {
+		node := obj.list[keyname]
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
 			continue
-- 
2.43.0


From b3ff2f455b85dc651843aad4b259470da215bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 21/39] fix: do not write the replacements of a resource in the
 shared application

---
 applications/languages/lexers/application.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 76a54b8..d596d29 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -369,6 +369,11 @@ func (app *application) fetchReplacementPaths(
 		return replacementPaths, nil
 	}
 
+	output := map[string]asts_paths.Path{}
+	for keyname, onePath := range replacementPaths {
+		output[keyname] = onePath
+	}
+
 	repList := references.Replacements().All()
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
@@ -377,16 +382,16 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refPath, err := app.path(resPath, replacementPaths, true)
+		refPath, err := app.path(resPath, output, true)
 		if err != nil {
 			return nil, err
 		}
 
 		refTokenName := oneReplacement.ReferenceToken()
-		replacementPaths[refTokenName] = refPath
+		output[refTokenName] = refPath
 	}
 
-	return replacementPaths, nil
+	return output, nil
 }
 
 func (app *application) fetchNotFoundPaths(
-- 
2.43.0


From 1c9b118e4ee61cd5e2353e0affc417da4a377546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 22/39] fix: a match that contains a line reports what its line
 reports

---
 domain/languages/lexers/asts/tokens/match.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/match.go b/domain/languages/lexers/asts/tokens/match.go
index bc7bd30..55fb9c3 100644
--- a/domain/languages/lexers/asts/tokens/match.go
+++ b/domain/languages/lexers/asts/tokens/match.go
@@ -24,6 +24,10 @@ func (obj *match) Input() string {
 		return obj.content.Token().Result().Input()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().Input()
+	}
+
 	return obj.content.Skip().Input()
 }
 
@@ -37,6 +41,10 @@ func (obj *match) Discoveries() string {
 		return obj.content.Token().Result().Discoveries()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().Discoveries()
+	}
+
 	// skip has always no discoveries:
 	return ""
 }
@@ -51,6 +59,10 @@ func (obj *match) IsValid() bool {
 		return obj.content.Token().IsValid()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().IsValid()
+	}
+
 	// skip is always valid:
 	return true
 }
@@ -65,6 +77,10 @@ func (obj *match) IsExact() bool {
 		return obj.content.Token().IsExact()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().IsExact()
+	}
+
 	// skip is always exact:
 	return true
 }
-- 
2.43.0


From cf94e5fdc6267d93b7ed212a9fa8475cd7944c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 23/39] fix: return the input of a block match that expects a
 next element instead of panicking

---
 domain/languages/lexers/asts/tokens/blockmatch.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/blockmatch.go b/domain/languages/lexers/asts/tokens/blockmatch.go
index d48d6f7..a8e4b1a 100644
--- a/domain/languages/lexers/asts/tokens/blockmatch.go
+++ b/domain/languages/lexers/asts/tokens/blockmatch.go
@@ -47,10 +47,14 @@ func (obj *blockMatch) Input() string {
 		}, "")
 	}
 
-	return strings.Join([]string{
-		prefix,
-		content.Block().Input(),
-	}, "")
+	if content.IsBlock() {
+		return strings.Join([]string{
+			prefix,
+			content.Block().Input(),
+		}, "")
+	}
+
+	return prefix
 }
 
 // IsValid returns true if the blockMatch is valid, false otherwise
-- 
2.43.0


From 92ebed134c0f010da1ba6cb212b1d6b96aa5cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 24/39] fix: try the channels in a stable order

---
 domain/languages/lexers/asts/tokens/adapter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..48b4634 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -3,6 +3,7 @@ package tokens
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
@@ -296,7 +297,14 @@ func (app *adapter) bestLineToMatches(lines []paths.Line, dependencies paths.Dep
 }
 
 func (app *adapter) findMatchesInChannels(script string) (LineMatch, error) {
-	for _, oneChannel := range app.channels {
+	names := []string{}
+	for name := range app.channels {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+	for _, name := range names {
+		oneChannel := app.channels[name]
 		token, err := app.elementToToken(oneChannel.Element(), oneChannel.Dependencies(), script, false)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0c8a9bae675de0c90c2bbad616460cfad938c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 25/39] fix: a script does not change how the next one is
 parsed

---
 domain/languages/lexers/asts/tokens/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 48b4634..d2429e5 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -199,6 +199,11 @@ func createAdapterInternally(
 
 // ToToken converts a script to a Token instance
 func (app *adapter) ToToken(script string) (Token, error) {
+	canContainPrefix := app.canContainPrefix
+	defer func() {
+		app.canContainPrefix = canContainPrefix
+	}()
+
 	app.recursiveTokens = map[string]string{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
-- 
2.43.0


From fb6a7fbd839c3a790ca5b82f482c69188703dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 26/39] fix: do not share the list of dependencies between
 paths

---
 domain/languages/lexers/asts/paths/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/paths/adapter.go b/domain/languages/lexers/asts/paths/adapter.go
index d9a6770..a4dacbd 100644
--- a/domain/languages/lexers/asts/paths/adapter.go
+++ b/domain/languages/lexers/asts/paths/adapter.go
@@ -225,7 +225,7 @@ func (app *adapter) ToPath(token tokens.Token) (Path, error) {
 		return nil, err
 	}
 
-	allElements := app.dependencies
+	allElements := append([]Element{}, app.dependencies...)
 	for _, oneElement := range externalDepElements {
 		allElements = append(allElements, oneElement)
 	}
-- 
2.43.0


From 58dc057594e0b50ce0840a35858c58100df5b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 27/39] fix: convert a mandatory cardinality to its pattern
 instead of panicking

---
 domain/languages/lexers/cardinality/adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/domain/languages/lexers/cardinality/adapter.go b/domain/languages/lexers/cardinality/adapter.go
index 896bfe5..65624fc 100644
--- a/domain/languages/lexers/cardinality/adapter.go
+++ b/domain/languages/lexers/cardinality/adapter.go
@@ -68,6 +68,15 @@ func (app *adapter) ToPatternString(cardinality Cardinality) (string, error) {
 		return app.multipleCharacter, nil
 	}
 
+	if cardinality.IsMandatory() {
+		specific, err := app.specificAdapter.ToSpecific("1")
+		if err != nil {
+			return "", err
+		}
+
+		return app.specificAdapter.ToPatternString(specific)
+	}
+
 	specific := cardinality.Specific()
 	return app.specificAdapter.ToPatternString(specific)
 }
-- 
2.43.0


From a38ee08f9c3fd9ee57ede3ca8ade8ecaf6730b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 28/39] fix: list the dependencies in a stable order

---
 .../languages/lexers/asts/paths/dependencies_builder.go  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/dependencies_builder.go b/domain/languages/lexers/asts/paths/dependencies_builder.go
index aa4158e..4da109b 100644
--- a/domain/languages/lexers/asts/paths/dependencies_builder.go
+++ b/domain/languages/lexers/asts/paths/dependencies_builder.go
@@ -31,15 +31,20 @@ func (app *dependenciesBuilder) Now() (Dependencies, error) {
 		app.list = []Element{}
 	}
 
+	names := []string{}
 	mp := map[string]Element{}
 	for _, oneElement := range app.list {
 		name := oneElement.Name()
+		if _, ok := mp[name]; !ok {
+			names = append(names, name)
+		}
+
 		mp[name] = oneElement
 	}
 
 	list := []Element{}
-	for _, oneElement := range mp {
-		list = append(list, oneElement)
+	for _, name := range names {
+		list = append(list, mp[name])
 	}
 
 	return createDependencies(list, mp), nil
-- 
2.43.0


From b487b503163a69dcb887508d0d0cc850ca2a6776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 29/39] fix: do not write the element of a path in its list of
 dependencies

---
 domain/languages/lexers/asts/paths/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/path.go b/domain/languages/lexers/asts/paths/path.go
index eb45142..2451f8a 100644
--- a/domain/languages/lexers/asts/paths/path.go
+++ b/domain/languages/lexers/asts/paths/path.go
@@ -29,6 +29,7 @@ func (obj *path) Dependencies() Dependencies {
 
 // CombinedElements returns the current element combined with the dependencies elements
 func (obj *path) CombinedElements() []Element {
-	dep := obj.dep.All()
-	return append(dep, obj.element)
+	output := []Element{}
+	output = append(output, obj.dep.All()...)
+	return append(output, obj.element)
 }
-- 
2.43.0


From 3bde070370a75cd86903bc9f0ef69e5765467d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 30/39] fix: a line without any container has no next element

---
 domain/languages/lexers/asts/tokens/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index d2429e5..4036779 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -473,7 +473,7 @@ func (app *adapter) fetchFirstContainerFromLine(line paths.Line) (paths.Containe
 		}
 	}
 
-	return nil, nil
+	return nil, errors.New("the line does not contain any container, therefore it has no next element")
 }
 
 func (app *adapter) buildNextElementFromRule(rule rules.Rule) (NextElement, error) {
-- 
2.43.0


From 850442984a1749408d782750e3178306b3e6ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 31/39] fix: reject an operation element whose variable name is
 empty

---
 .../scripts/base/parsers/operationelement_builder.go          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/languages/scripts/base/parsers/operationelement_builder.go b/domain/languages/scripts/base/parsers/operationelement_builder.go
index 25fa8e2..c89ee06 100644
--- a/domain/languages/scripts/base/parsers/operationelement_builder.go
+++ b/domain/languages/scripts/base/parsers/operationelement_builder.go
@@ -63,6 +63,10 @@ func (app *operationElementBuilder) Now() (OperationElement, error) {
 		return createOperationElementWithBoolValue(app.boolValue), nil
 	}
 
+	if app.variableName != nil && *app.variableName == "" {
+		app.variableName = nil
+	}
+
 	if app.variableName != nil {
 		return createOperationElementWithVariableName(app.variableName), nil
 	}
-- 
2.43.0


From 534a0bf06ed5d62080a18bf2d4a638f93c05ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 32/39] fix: resolve the references to an included language
 with the patterns of the language that includes it

---
 applications/languages/lexers/application.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index d596d29..f6639c7 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -406,7 +406,7 @@ func (app *application) fetchNotFoundPaths(
 
 	refList := references.References().All()
 	for _, oneReference := range refList {
-		path, err := app.linkToPathFromFile(oneReference, replacementPaths)
+		path, err := app.linkToPathFromFile(oneReference, resContainer, replacementPaths)
 		if err != nil {
 			return nil, err
 		}
@@ -420,6 +420,7 @@ func (app *application) fetchNotFoundPaths(
 
 func (app *application) linkToPathFromFile(
 	reference links.Link,
+	parentContainer resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
 	applicationBuilder := app.builder.Create()
@@ -445,7 +446,7 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	resContainer, err := app.resourcesContainerBuilder.Create().WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
+	resContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(parentContainer.Patterns()).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c9da63cff09b571ce20b21398c225162c266cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 33/39] fix: a mandatory element is expected after an optional
 one at the end of a script

---
 domain/languages/lexers/asts/tokens/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 4036779..4a63b40 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -345,6 +345,11 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 		}
 
 		if match == nil {
+			// at the end of the script, the element is optional, but the next ones might not be:
+			if remainingScript == "" {
+				continue
+			}
+
 			break
 		}
 
-- 
2.43.0


From eeb145cdb217d4c3288d4d650363339dfb074210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:03 +0000
Subject: [PATCH 34/39] fix: read the prefix and the suffix of a rule match in
 its text instead of the code of its rule

---
 domain/languages/lexers/asts/adapter.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 396a3e7..2cadf6e 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -225,8 +225,7 @@ func (app *adapter) tokenMatch(tokenMatch ast_tokens.TokenMatch) (TokenMatch, er
 func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error) {
 	name := ruleMatch.Rule().Base().Name()
 	astResult := ruleMatch.Result().Result()
-	input := ruleMatch.Result().Path().Base().Code()
-	result, err := app.ruleResult(name, astResult, input)
+	result, err := app.ruleResult(name, astResult)
 	if err != nil {
 		return nil, err
 	}
@@ -238,12 +237,12 @@ func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error)
 	return app.ruleMatchBuilder.Create().WithRule(name).WithResult(result).Now()
 }
 
-func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input string) (Result, error) {
+func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result) (Result, error) {
 	if !ruleResult.HasResults() {
 		return nil, nil
 	}
 
-	firstIndex := uint(0)
+	var first patterns.Result
 	results := ruleResult.Results()
 	discoveriesContent := ruleResult.Discoveries()
 	discoveriesList := []patterns.Discovery{}
@@ -253,20 +252,23 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 		}
 
 		matches := oneResult.Matches().List()
-		for idx, oneMatch := range matches {
+		for _, oneMatch := range matches {
 			oneDiscoveries := oneMatch.Discoveries()
 			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
 
-			if idx <= 0 {
-				firstIndex = oneMatch.Discoveries().Index()
+			if first == nil {
+				first = oneMatch
 			}
 		}
 	}
 
-	if len(discoveriesList) <= 0 {
+	if first == nil {
 		return nil, nil
 	}
 
+	input := first.Input()
+	firstIndex := first.Discoveries().Index()
+
 	discoveries, err := app.discoveriesBuilder.Create().WithList(discoveriesList).Now()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3ab3c3030fbde384cb84399fe6039ee843764e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 35/39] fix: a result built from an empty list of matches has
 no match

---
 domain/languages/lexers/asts/results/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/languages/lexers/asts/results/builder.go b/domain/languages/lexers/asts/results/builder.go
index 1ee0424..88bb31b 100644
--- a/domain/languages/lexers/asts/results/builder.go
+++ b/domain/languages/lexers/asts/results/builder.go
@@ -44,6 +44,10 @@ func (app *builder) Now() (Result, error) {
 		return nil, errors.New("the rule input is mandatory in order to build a Result instance")
 	}
 
+	if app.matches != nil && len(app.matches) <= 0 {
+		app.matches = nil
+	}
+
 	if app.matches != nil {
 		matches := createMatches(app.matches)
 		return createResultWithMatches(app.input, matches), nil
-- 
2.43.0


From b941e3d4b91dcd658ad6dd02cf07ffb1c88001fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 36/39] fix: the failure of an event is logged as it is, not
 used as a format

---
 applications/languages/parsers/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/languages/parsers/manager.go b/applications/languages/parsers/manager.go
index 81d9d35..d163580 100644
--- a/applications/languages/parsers/manager.go
+++ b/applications/languages/parsers/manager.go
@@ -105,7 +105,7 @@ func (app *manager) executeEvents(name string, root roots.Root) ([]interface{},
 			ins, err := oneEventFunc(root, app)
 			if err != nil {
 				str := fmt.Sprintf("%s.%d: %s", name, index, err.Error())
-				log.Printf(str)
+				log.Print(str)
 				continue
 			}
 
-- 
2.43.0


From f15c1ac3bc94b48a95688c1e9a973ec3c8519384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:42 +0000
Subject: [PATCH 37/39] fix: the range of an amount of tokens includes its
 maximum

---
 domain/languages/lexers/asts/tokens/tokenresultmatches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/tokenresultmatches.go b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
index eb9f311..b689f41 100644
--- a/domain/languages/lexers/asts/tokens/tokenresultmatches.go
+++ b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
@@ -69,7 +69,7 @@ func (obj *tokenResultMatches) IsAmount(amount uint) bool {
 // IsInRange returns true if the amount of tokens is within the given range
 func (obj *tokenResultMatches) IsInRange(min uint, max uint) bool {
 	listAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) > listAmount
+	return obj.IsAtLeast(min) && int(max) >= listAmount
 }
 
 // IsAtLeast returns true if there is at least this amount of tokens
-- 
2.43.0


From cd4b0e602524f3d2883c09d73ad1fae303cf499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:42 +0000
Subject: [PATCH 38/39] fix: the range of the discoveries compares the amount
 that they tell

---
 domain/languages/lexers/containers/patterns/discoveries.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/discoveries.go b/domain/languages/lexers/containers/patterns/discoveries.go
index a425206..5e5730b 100644
--- a/domain/languages/lexers/containers/patterns/discoveries.go
+++ b/domain/languages/lexers/containers/patterns/discoveries.go
@@ -66,8 +66,7 @@ func (obj *discoveries) IsAmount(amount uint) bool {
 
 // IsInRange returns true if in range, false otherwise
 func (obj *discoveries) IsInRange(min uint, max uint) bool {
-	currentAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) >= currentAmount
+	return obj.IsAtLeast(min) && max >= obj.Amount()
 }
 
 // IsAtLeast returns true if the current amount is at least, false otherwise
-- 
2.43.0


From dfa92b10ca60d22857f3c9fff0dc94c8dc9f15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:51 +0000
Subject: [PATCH 39/39] fix: the hashes of a transaction, a block and a chain
 commit to the whole creation time

Two of them created within the same second, from the same parts, had the same hash.
---
 domain/chains/block_builder.go         | 2 +-
 domain/chains/builder.go               | 2 +-
 domain/transactions/content_builder.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/chains/block_builder.go b/domain/chains/block_builder.go
index 0167e34..aee2e9e 100644
--- a/domain/chains/block_builder.go
+++ b/domain/chains/block_builder.go
@@ -91,7 +91,7 @@ func (app *blockBuilder) Now() (Block, error) {
 		[]byte(strconv.Itoa(int(app.height))),
 		app.fees.Hash().Bytes(),
 		app.transactions.Hash().Bytes(),
-		[]byte(strconv.Itoa(int(app.createdOn.Unix()))),
+		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
 	}
 
 	if app.previous != nil {
diff --git a/domain/chains/builder.go b/domain/chains/builder.go
index 60cda06..75ba6b3 100644
--- a/domain/chains/builder.go
+++ b/domain/chains/builder.go
@@ -77,7 +77,7 @@ func (app *builder) Now() (Chain, error) {
 	data := [][]byte{
 		app.id.Bytes(),
 		app.root.Bytes(),
-		[]byte(strconv.Itoa(int(app.createdOn.Unix()))),
+		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
 	}
 
 	if app.head != nil {
diff --git a/domain/transactions/content_builder.go b/domain/transactions/content_builder.go
index a14e2fb..6908049 100644
--- a/domain/transactions/content_builder.go
+++ b/domain/transactions/content_builder.go
@@ -95,7 +95,7 @@ func (app *contentBuilder) Now() (Content, error) {
 		app.amount.Bytes(),
 		app.origin.Hash().Bytes(),
 		app.external.Bytes(),
-		[]byte(strconv.Itoa(int(app.createdOn.UTC().Unix()))),
+		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
 	})
 
 	if err != nil {
-- 
2.43.0

