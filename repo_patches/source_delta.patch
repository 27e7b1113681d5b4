From 11e599f705f1f98135302d439b9ce984072bae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 01/35] fix: numeric parser must accept a decimal point

append('.') rejected the point when setPoint succeeded and accepted it when it
failed, so "1.5" was never recognised and "1.5.2" was.
---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 3e0288a..d25b5e6 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -202,7 +202,7 @@ func (p *numericParser) append(c rune) bool {
 			p.errorState = errComma
 			return false
 
-		} else if p.tmp.setPoint() {
+		} else if !p.tmp.setPoint() {
 			p.errorState = errPoint
 			return false
 		}
-- 
2.43.0


From 9e931ae944c6f658cb24a17755ce8652a29d15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 02/35] fix: stringNumber.add must not render its argument and
 must normalise first

Rendering the addend inserted a '.' (and stripped zeros) into its digits before
they were appended; adding below a receiver with a pending point compared an
unnormalised scale.
---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index d25b5e6..f80a862 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -76,13 +76,13 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		return true
 	}
 
+	n.normalizeScale()
 	l := t.intLength()
 	if n.scale >= l {
 		n.fillZero(n.scale - l)
 		if t.point >= 0 {
 			n.point = len(n.significand) + t.point
 		}
-		_ = t.String()
 		n.significand = append(n.significand, t.significand...)
 		n.scale = t.scale
 		return true
-- 
2.43.0


From 9fc4366e325d290a2c7070b3d264b9fa85fe7212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 03/35] fix: Traverse must continue from the given node
 position

It always read the offset of the root, so a traversal resumed at any other
node followed a wrong transition.
---
 dartsclone/da.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 9e7ca7f..6492519 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -233,7 +233,7 @@ type TraverseResult struct {
 func (da *DoubleArray) Traverse(key []byte, offset int, length int, nodePosition int) *TraverseResult {
 	nodePos := uint32(nodePosition)
 	id := nodePos
-	u := daunit(da.array[0])
+	u := daunit(da.array[int(id)])
 
 	for i := offset; i < length; i++ {
 		k := uint32(key[i])
-- 
2.43.0


From 1d922fe1728560a01626b56236e33bb631029107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 04/35] fix: DAWG insertion must not index past a key and must
 reject NUL everywhere

Inserting a key that is a prefix of the previous one indexed key[len(key)], and
a NUL byte past the shared prefix was stored as a key end.
---
 dartsclone/dawgbuilder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 81a9d0b..055a5bb 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -168,7 +168,7 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		}
 
 		var keyLabel byte
-		if keyPos <= keylen {
+		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
 		if keyPos < keylen && keyLabel == 0 {
@@ -194,6 +194,9 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		var keyLabel byte
 		if keyPos < keylen {
 			keyLabel = key[keyPos]
+			if keyLabel == 0 {
+				return fmt.Errorf("invalid null character")
+			}
 		}
 		childId := b.appendNode()
 
-- 
2.43.0


From 157163c305adef935d3148152a0d2c1e91f6f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 05/35] fix: bit vector lookup and rank

get tested a wrong bit, and rank excluded the bit of its argument although
intersectionId expects the inclusive rank: shared suffixes were expanded again
or indexed the intersection table with -1.
---
 dartsclone/bitvector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dartsclone/bitvector.go b/dartsclone/bitvector.go
index 8159da4..7b30723 100644
--- a/dartsclone/bitvector.go
+++ b/dartsclone/bitvector.go
@@ -16,14 +16,14 @@ func newBitVector() *bitVector {
 }
 
 func (v *bitVector) get(id int) bool {
-	return v.units[id/unitLength]>>((uint(id)%unitLength)&1) == 1
+	return (v.units[id/unitLength]>>(uint(id)%unitLength))&1 == 1
 }
 
 func (v *bitVector) rank(id int) int {
 	const mask = uint32(0xffffffff)
 	unitId := id / unitLength
 	offset := uint(id % unitLength)
-	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<offset))
+	return v.ranks[unitId] + popCount(v.units[unitId] & (mask>>(unitLength-1-offset)))
 }
 
 func (v *bitVector) set(id int, bit bool) {
-- 
2.43.0


From ecaa0a8d90535156423f96a26fac1c9f1d1b8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 06/35] fix: trie building must reject an empty key without
 explicit values, too

Building with values rejects it; without, it was stored where no prefix search
finds it.
---
 dartsclone/dabuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dartsclone/dabuilder.go b/dartsclone/dabuilder.go
index b9fa608..ad9a506 100644
--- a/dartsclone/dabuilder.go
+++ b/dartsclone/dabuilder.go
@@ -324,6 +324,9 @@ func (dab *doubleArrayBuilder) arrangeFromKeySet(ks *keySet, begin int, end int,
 
 	value := -1
 	for i := begin; i < end; i++ {
+		if len(ks.getKey(i)) == 0 {
+			return 0, fmt.Errorf("zero-length key")
+		}
 		label := ks.getKeyByte(i, depth)
 		if label == 0 {
 			if depth < len(ks.getKey(i)) {
-- 
2.43.0


From eee91b64960c3e900e4f09f44229b7a354a34211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 07/35] fix: long texts must not become unconnected

Path costs of 2^31-1 and more were treated as unreachable, and a node inserted
twice kept a stale predecessor.
---
 lattice.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattice.go b/lattice.go
index 2568770..9533855 100644
--- a/lattice.go
+++ b/lattice.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"math"
 	"strings"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
@@ -228,7 +227,8 @@ func (l *Lattice) HasPreviousNode(index int) bool {
 
 func (l *Lattice) connectNode(rNode *LatticeNode) {
 	begin := rNode.Begin
-	rNode.totalCost = math.MaxInt32
+	rNode.totalCost = 0
+	rNode.bestPreviousNode = nil
 	for _, lNode := range l.endLists[begin] {
 		if !lNode.isConnectedToBOS {
 			continue
@@ -238,7 +238,7 @@ func (l *Lattice) connectNode(rNode *LatticeNode) {
 			continue // this connection is not allowed
 		}
 		cost := lNode.totalCost + int(connectCost)
-		if cost < rNode.totalCost {
+		if rNode.bestPreviousNode == nil || cost < rNode.totalCost {
 			rNode.totalCost = cost
 			rNode.bestPreviousNode = lNode
 		}
-- 
2.43.0


From 69c784313659ae3617735568c50e906500c1eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 08/35] fix: the lattice must be emptied before it is built

After a call that ended in an error the nodes of its text were left in the
lattice and took part in the next call.
---
 tokenizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..dc1bcdc 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -97,6 +97,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 
 func (t *JapaneseTokenizer) buildLattice(input *InputText) error {
 	bytea := input.Bytea
+	t.lattice.clear()
 	t.lattice.resize(len(bytea))
 	for i, _ := range bytea {
 		if !input.CanBow(i) || !t.lattice.HasPreviousNode(i) {
-- 
2.43.0


From cdbcf7d4726f014a9bd65dcf614d25701dd77bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 09/35] fix: all characters of a run must share a category

Each character was compared with the first one only, so a run could have no
category common to all of it.
---
 inputtext.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inputtext.go b/inputtext.go
index 98ea4ad..4a3c7b3 100644
--- a/inputtext.go
+++ b/inputtext.go
@@ -240,6 +240,7 @@ func getCharCategoryContinuousLength(charCategories []uint32, offset int) int {
 		if cc == 0 {
 			return length
 		}
+		continuousCategory = cc
 	}
 	return length
 }
-- 
2.43.0


From 5d8a095b4784e59cefac9d3e0af184faed2375f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 10/35] fix: prolonged sound mark replacement of any length

The running offset assumed a replacement of one character.
---
 prolongedsoundmarkinputtextplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prolongedsoundmarkinputtextplugin.go b/prolongedsoundmarkinputtextplugin.go
index cf1ccfb..c785a40 100644
--- a/prolongedsoundmarkinputtextplugin.go
+++ b/prolongedsoundmarkinputtextplugin.go
@@ -68,7 +68,7 @@ func (p *ProlongedSoundMarkInputTextPlugin) Rewrite(builder *InputTextBuilder) e
 		} else if isProlongedSoundMark && !ok {
 			if (i - markStartIndex) > 1 {
 				builder.Replace(markStartIndex-offset, i-offset, p.replacementSymbol)
-				offset += i - markStartIndex - 1
+				offset += i - markStartIndex - len(p.replacementSymbol)
 			}
 			isProlongedSoundMark = false
 		}
-- 
2.43.0


From 1fd440073a8945e2b1cd655ca433d4d0f5565bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 11/35] fix: settings without a path must use the default
 directory

The condition was inverted: the default was used only to overwrite a path that
had been set.
---
 settingsjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/settingsjson.go b/settingsjson.go
index 0c287da..75362e7 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,7 +42,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
-	if internalBaseConfig.Path == nil && settings.path != "" {
+	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
 		settings.path = *internalBaseConfig.Path
-- 
2.43.0


From 6d2b805be4c3deea81f76a8d2781da557e048c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 12/35] fix: a plugin entry must not inherit the name of an
 earlier one

The struct the names were decoded into was shared by all entries, so "name" of
one entry won over "class" of all later ones.
---
 settingsjson.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 75362e7..42924f8 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -86,11 +86,11 @@ func (settings *SettingsJSON) getPath(path string) string {
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
 	ret := []InputTextPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.inputTextPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -117,11 +117,11 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 
 func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProviderPluginFunc) ([]OovProviderPlugin, error) {
 	ret := []OovProviderPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.oovProviderPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -148,11 +148,11 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 
 func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEditConnectionCostPluginFunc) ([]EditConnectionCostPlugin, error) {
 	ret := []EditConnectionCostPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.editConnectionCostPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -179,11 +179,11 @@ func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEdit
 
 func (settings *SettingsJSON) GetPathRewritePluginArray(makeproc MakePathRewritePluginFunc) ([]PathRewritePlugin, error) {
 	ret := []PathRewritePlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.pathRewritePlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
-- 
2.43.0


From 2969732a23cd92acd26e949945504c73b97b426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 13/35] fix: inhibited pairs of the settings file must be read

The field was not exported, so encoding/json ignored the setting.
---
 inhibitconnectioncostplugin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index e720e52..8480428 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -5,12 +5,12 @@ import (
 )
 
 type InhibitConnectionPlugin struct {
-	inhibitedPair []*[]int
+	InhibitedPair []*[]int
 }
 
 func NewInhibitConnectionPlugin(inhibitedPair []*[]int) *InhibitConnectionPlugin {
 	return &InhibitConnectionPlugin{
-		inhibitedPair: inhibitedPair,
+		InhibitedPair: inhibitedPair,
 	}
 }
 
@@ -23,7 +23,7 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 }
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
-	for _, pair := range p.inhibitedPair {
+	for _, pair := range p.InhibitedPair {
 		if len(*pair) < 2 {
 			continue
 		}
-- 
2.43.0


From b14abdbc9522d1736cedcad5bd7cd1c1e2ebd91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 14/35] fix: a file too short for a header must be refused, not
 crash

ParseDictionaryHeader now returns nil as its caller expects, and takes the end
of the description relative to the offset.
---
 dictionary/dicheader.go  | 6 +++++-
 dictionary/dicprinter.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..b069339 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -26,11 +26,15 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 }
 
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if offset < 0 || len(input)-offset < HeaderStorageSize {
+		return nil
+	}
+	end := offset + HeaderStorageSize
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
 	i := offset
-	for ; i < HeaderStorageSize; i++ {
+	for ; i < end; i++ {
 		if input[i] == 0 {
 			break
 		}
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..6013f06 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -112,6 +112,9 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
-- 
2.43.0


From 068da24f0c17b07c860ad35575af9820b8cd4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 15/35] fix: a description with NUL must be rejected

It would be cut off at the NUL when it is read back.
---
 dictionary/dicheader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index b069339..660614c 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -54,6 +54,9 @@ func (dh *DictionaryHeader) ToBytes() ([]byte, error) {
 	if len(desc) > DescriptionSize {
 		return nil, errors.New("description is too long")
 	}
+	if bytes.IndexByte(desc, 0) >= 0 {
+		return nil, errors.New("description contains a null character")
+	}
 
 	buf := bytes.NewBuffer(make([]byte, 0, HeaderStorageSize))
 	err := binary.Write(buf, binary.LittleEndian, uint64(dh.Version))
-- 
2.43.0


From a7221370f03f48758938dd57847e90a87081a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 16/35] fix: report an error of the automatic cost calculation

The remaining words silently kept the marker as their cost.
---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..fba554a 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -117,7 +117,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -130,6 +130,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return err
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	d.grammar.AddPosList(dict.Grammar)
 	return nil
-- 
2.43.0


From dc20337c55097a0c6b480700fec6cdbe2390697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 17/35] fix: a user dictionary without a grammar must not crash

Dictionaries of the first user version have none.
---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index fba554a..5c3ab58 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -134,7 +134,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return err
 	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil {
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From 08d7a9550e0d73cf6331740b7312bed0273363fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 18/35] fix: internal cost of an empty list

A user word with an empty surface and automatic cost crashed.
---
 morpheme.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From 6f4306a2d139285df2205866852b559b7e505fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 19/35] fix: word and string lengths above 32767 must not wrap
 around

HeadwordLength was an int16: an unknown word of more than 32767 bytes got a
negative length and crashed the tokenizer, and strings that do not fit the
dictionary format were written with a truncated length. Lengths are now ints,
and the writers return an error for what the format cannot represent.
---
 dictionary/dalexicon.go    |  2 +-
 dictionary/dicbuilder.go   | 15 +++++++++++----
 dictionary/wordinfo.go     |  2 +-
 mecaboovproviderplugin.go  |  2 +-
 morpheme.go                |  2 +-
 plugin.go                  |  6 +++---
 simpleoovproviderplugin.go |  2 +-
 tokenizer.go               |  2 +-
 8 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..f04856b 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -135,7 +135,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	return &WordInfo{
 		Surface:              surface,
-		HeadwordLength:       int16(headwordLength),
+		HeadwordLength:       headwordLength,
 		PosId:                posId,
 		NormalizedForm:       normalizedForm,
 		DictionaryFormWordId: dictionaryFormWordId,
diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..903e498 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -313,6 +314,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		if dicbuilder.stringLen(cols[0]) {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
+		if len(cols[0]) > math.MaxInt16 {
+			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
+		}
 		if dicbuilder.stringLen(cols[4]) {
 			return fmt.Errorf("string is too long: column 4 at line %d", r.numLine)
 		}
@@ -379,7 +383,7 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 
 		entry.WordInfo = &WordInfo{
 			Surface:              cols[4], // headword
-			HeadwordLength:       int16(len(cols[0])),
+			HeadwordLength:       len(cols[0]),
 			PosId:                posId,
 			NormalizedForm:       cols[12],      // normalizedForm
 			DictionaryFormWordId: dicFormWordId, // dictionaryFormWordId
@@ -404,7 +408,10 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 	return nil
 }
 
-func writeStringLength(buffer *bytes.Buffer, length int16) error {
+func writeStringLength(buffer *bytes.Buffer, length int) error {
+	if length < 0 || length > math.MaxInt16 {
+		return fmt.Errorf("too long: %d", length)
+	}
 	if length <= 127 {
 		err := buffer.WriteByte(byte(length))
 		if err != nil {
@@ -424,7 +431,7 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
-	err := writeStringLength(buffer, int16(len(s)))
+	err := writeStringLength(buffer, len(s))
 	if err != nil {
 		return err
 	}
@@ -439,7 +446,7 @@ func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 	// java compatible
 	javainternal := utf16.Encode([]rune(s))
 
-	err := writeStringLength(buffer, int16(len(javainternal)))
+	err := writeStringLength(buffer, len(javainternal))
 	if err != nil {
 		return err
 	}
diff --git a/dictionary/wordinfo.go b/dictionary/wordinfo.go
index 7d4c8e3..65f9c56 100644
--- a/dictionary/wordinfo.go
+++ b/dictionary/wordinfo.go
@@ -2,7 +2,7 @@ package dictionary
 
 type WordInfo struct {
 	Surface string
-	HeadwordLength int16
+	HeadwordLength int
 	PosId int16
 	NormalizedForm string
 	DictionaryFormWordId int32
diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..0e2daa3 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -129,7 +129,7 @@ func (p *MeCabOovProviderPlugin) getOovNode(text string, oov *oov, length int) *
 	node.SetParameter(oov.leftId, oov.rightId, oov.cost)
 	wi := &dictionary.WordInfo{
 		Surface:        text,
-		HeadwordLength: int16(length),
+		HeadwordLength: length,
 		PosId:          oov.posId,
 		NormalizedForm: text,
 		DictionaryForm: text,
diff --git a/morpheme.go b/morpheme.go
index f331b7d..1ae6e6f 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -136,7 +136,7 @@ func (l *MorphemeList) Split(mode string, index int, wi *dictionary.WordInfo) *M
 		n := NewLatticeNode(l.lexicon, 0, 0, 0, wid)
 		n.Begin = offset
 		wi := n.GetWordInfo()
-		offset += int(wi.HeadwordLength)
+		offset += wi.HeadwordLength
 		n.End = offset
 		nodes[i] = n
 	}
diff --git a/plugin.go b/plugin.go
index bfc0167..b13030b 100644
--- a/plugin.go
+++ b/plugin.go
@@ -101,7 +101,7 @@ func ConcatenateNodes(path *[]*LatticeNode, begin int, end int, lattice *Lattice
 		normalizedFormLen int
 		dictionaryFormLen int
 		readingFormLen    int
-		length            int16
+		length            int
 	)
 	wilist := make([]*dictionary.WordInfo, 0, end - begin)
 	for i := begin; i < end; i++ {
@@ -165,7 +165,7 @@ func ConcatenateOov(path *[]*LatticeNode, begin int, end int, posId int16, latti
 
 	var (
 		surfaceLen int
-		length     int16
+		length     int
 	)
 	wilist := make([]*dictionary.WordInfo, 0, end - begin)
 	for i := begin; i < end; i++ {
@@ -232,7 +232,7 @@ func GetOOV(p OovProviderPlugin, inputText *InputText, offset int, hasOtherWords
 	for _, node := range nodes {
 		wi := node.GetWordInfo()
 		node.Begin = offset
-		node.End = offset + int(wi.HeadwordLength)
+		node.End = offset + wi.HeadwordLength
 	}
 	return nodes, nil
 }
diff --git a/simpleoovproviderplugin.go b/simpleoovproviderplugin.go
index 5de2b48..cfcc89b 100644
--- a/simpleoovproviderplugin.go
+++ b/simpleoovproviderplugin.go
@@ -73,7 +73,7 @@ func (p *SimpleOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, h
 		s := inputText.GetSubstring(offset, offset+length)
 		wi := &dictionary.WordInfo{
 			Surface:        s,
-			HeadwordLength: int16(length),
+			HeadwordLength: length,
 			PosId:          p.oovPosId,
 			NormalizedForm: s,
 			DictionaryForm: s,
diff --git a/tokenizer.go b/tokenizer.go
index dc1bcdc..f0b9a5f 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -174,7 +174,7 @@ func (t *JapaneseTokenizer) splitPath(path []*LatticeNode, mode string) []*Latti
 				n := NewLatticeNode(t.lexicon, 0, 0, 0, wid)
 				n.Begin = offset
 				nwi := n.GetWordInfo()
-				offset += int(nwi.HeadwordLength)
+				offset += nwi.HeadwordLength
 				n.End = offset
 				newPath = append(newPath, n)
 			}
-- 
2.43.0


From d79988ede2472549c67e754545f983581773b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 20/35] fix: arrays of more than 255 elements must be rejected

Their length was truncated to a byte, which lost homographs.
---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 903e498..ef88945 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -460,6 +460,9 @@ func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 }
 
 func writeIntArray(buffer *bytes.Buffer, a []int32) error {
+	if len(a) > math.MaxUint8 {
+		return fmt.Errorf("too many elements: %d", len(a))
+	}
 	err := buffer.WriteByte(byte(len(a)))
 	if err != nil {
 		return err
@@ -669,6 +672,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		wordIds, _ := v.([]int32)
 		keys[i] = bkey
 		values[i] = position
+		if len(wordIds) > math.MaxUint8 {
+			return fmt.Errorf("too many homographs: %s", bkey)
+		}
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
 		if err != nil {
 			return err
-- 
2.43.0


From eb0a55828be5df290a5dce17a39335086d821740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 21/35] fix: connection matrix indexes out of range must be
 rejected

They crashed the builder or overwrote the cost of another pair.
---
 dictionary/dicbuilder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index ef88945..f2e8626 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -508,6 +508,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err == io.EOF {
 		return fmt.Errorf("invalid format at line %d", r.NumLine)
 	}
+	if err != nil {
+		return err
+	}
 
 	fmt.Fprint(os.Stderr, "writing the connection matrix...")
 
@@ -523,6 +526,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 	}
+	if leftSize < 0 || rightSize < 0 {
+		return fmt.Errorf("invalid matrix size at line %d", r.NumLine)
+	}
 	err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(leftSize))
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
@@ -570,6 +576,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("invalid matrix index at line %d", r.NumLine)
+		}
 		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
 	}
 
-- 
2.43.0


From be6d511533aa60982c72c6b71b6ee3f3aacdeaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 22/35] fix: dictionary forms that are cyclic or out of range

Reading a word whose dictionary form refers back to it recursed forever, and a
reference to a word that does not exist crashed the reader.
---
 dictionary/dalexicon.go  | 3 +--
 dictionary/dicbuilder.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index f04856b..778dc68 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f2e8626..5db51ac 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -830,6 +830,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 		if err != nil {
 			return err
 		}
+		if wi.DictionaryFormWordId >= int32(len(dicbuilder.wordEntries)) {
+			return fmt.Errorf("invalid dictionary form word ID: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint32(wi.DictionaryFormWordId))
 		if err != nil {
 			return err
-- 
2.43.0


From ee83f9688bbba91e85f9ae294ff94c750232821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 23/35] fix: report write errors of the word infos

---
 dictionary/dalexicon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 778dc68..b673c9f 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -351,6 +351,9 @@ func (lexicon *DoubleArrayLexicon) WriteWordInfos(writer io.Writer, offset int64
 			return 0, offsets, err
 		}
 		n, err := buffer.WriteTo(writer)
+		if err != nil {
+			return 0, offsets, err
+		}
 		buffer.Reset()
 		position += n
 	}
-- 
2.43.0


From d21f72895d3139b331e0d964dd4be8489b26f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 24/35] fix: dicconv must stop if the dictionary cannot be
 opened

---
 dicconv/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..3ed2d09 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -65,6 +65,7 @@ Options:
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
-- 
2.43.0


From c40fa98954cd96524f49dfb8bd73cde1efea7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 25/35] fix: the dictionary printer must print parts of speech
 and splits as stored

Both lists were made full of empty strings before being appended to. Printing a
user dictionary also no longer adds to the system dictionary's list, which
shifted the ids of the next one printed.
---
 dictionary/dicprinter.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 6013f06..6cd720c 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -26,16 +26,18 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 		return errors.New("the system dictionary is not specified")
 	} else {
 		grammar = systemDict.Grammar
-		if dic.Header.Version == UserDictVersion2 {
-			grammar.AddPosList(dic.Grammar)
-		}
 	}
 
 	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
+	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
+	if dic.Header.Version == UserDictVersion2 {
+		for pid := 0; pid < dic.Grammar.GetPartOfSpeechSize(); pid++ {
+			posStrings = append(posStrings, strings.Join(dic.Grammar.GetPartOfSpeechString(int16(pid)), ","))
+		}
+	}
 
 	lexicon := dic.Lexicon
 	for wordId := int32(0); wordId < lexicon.Size(); wordId++ {
@@ -86,7 +88,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From 3c2fe07453eeb19497bd26f4e8becf15e92f042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 26/35] fix: part-of-speech ids must be found by their six
 fields

A user dictionary never found a part of speech of the system dictionary, since
it asked for all fields joined as one, and a field with a comma (written as an
escape) was split into two on writing.
---
 dictionary/dicbuilder.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 5db51ac..47c3584 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -44,32 +44,30 @@ type PosIdStore interface {
 }
 
 type PosTable struct {
-	table    []string
-	contains map[string]int16
+	table    [][]string
+	contains map[[posDepth]string]int16
 }
 
-func (pt *PosTable) getId(s string) int16 {
-	id, ok := pt.contains[s]
+func (pt *PosTable) GetPosId(posstrings ...string) int16 {
+	var key [posDepth]string
+	copy(key[:], posstrings)
+	id, ok := pt.contains[key]
 	if ok {
 		return id
 	}
 	id = int16(len(pt.table))
-	pt.contains[s] = id
-	pt.table = append(pt.table, s)
+	pt.contains[key] = id
+	pt.table = append(pt.table, key[:])
 	return id
 }
 
-func (pt *PosTable) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func (pt *PosTable) GetPartOfSpeechSize() int {
 	return len(pt.table)
 }
 
 func NewPosTable() *PosTable {
 	return &PosTable{
-		contains: map[string]int16{},
+		contains: map[[posDepth]string]int16{},
 	}
 }
 
@@ -78,22 +76,18 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-			contains: map[string]int16{},
+			contains: map[[posDepth]string]int16{},
 		},
 		baseStore: base,
 	}
@@ -649,8 +643,7 @@ func (dicbuilder *DictionaryBuilder) convertPOSTable(postable *PosTable) error {
 	}
 
 	for _, pos := range postable.table {
-		ts := strings.Split(pos, ",")
-		for _, t := range ts {
+		for _, t := range pos {
 			err := dicbuilder.writeString(t)
 			if err != nil {
 				return err
-- 
2.43.0


From 144e1e8a436ec2dff6530a7faf3b44ae097c016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:17 +0000
Subject: [PATCH 27/35] fix: more parts of speech than ids must be rejected

---
 dictionary/dicbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 47c3584..a54d3db 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -348,6 +348,10 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		// part of speech
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
 
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
+		}
+
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
 		}
-- 
2.43.0


From f1e3d535d3383c24f8870fdb38cbb2de782f009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 28/35] fix: a part of speech with too few fields must not
 crash

---
 dictionary/grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 66d88f0..d9a6c27 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -80,6 +80,9 @@ func (g *Grammar) GetPartOfSpeechString(posId int16) []string {
 }
 
 func (g *Grammar) GetPartOfSpeechId(pos []string) int16 {
+	if len(pos) < posDepth {
+		return int16(-1)
+	}
 L:
 	for i, p := range g.posList {
 		for j := 0; j < posDepth; j++ {
-- 
2.43.0


From a78275fe1c18a3d6cbec32488c4a0bd4aad104e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 29/35] fix: code points of character definitions

Code points with an odd number of digits (0x1F600) were rejected, ones with the
sign bit set became negative (so 0xFFFFFFFF..0x0041 was no reversed range), and
a bound without 0x or a third bound was accepted.
---
 dictionary/charcategory.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 3714640..9c77126 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -1,9 +1,9 @@
 package dictionary
 
 import (
-	"encoding/hex"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 	"unicode/utf8"
 
@@ -135,6 +135,9 @@ func (cc *CharacterCategory) ReadCharacterDefinition(charDefReader io.Reader) er
 
 		catrange := new(categoryRange)
 		rs := strings.Split(cols[0], "..")
+		if len(rs) > 2 {
+			return fmt.Errorf("invalid format at line %d: invalid range", r.NumLine)
+		}
 		low, err := decodeHexStrToInt32(rs[0])
 		if err != nil {
 			return fmt.Errorf("invalid format at line %d: %s", r.NumLine, err)
@@ -169,28 +172,12 @@ func (cc *CharacterCategory) ReadCharacterDefinition(charDefReader io.Reader) er
 }
 
 func decodeHexStrToInt32(s string) (int32, error) {
-	if len(s) < 3 {
-		return 0, fmt.Errorf("invalid hex string: too short")
+	if !strings.HasPrefix(s, "0x") {
+		return 0, fmt.Errorf("invalid hex string: %s", s)
 	}
-	src := []byte(s[2:])
-	dst := make([]byte, hex.DecodedLen(len(src)))
-	n, err := hex.Decode(dst, src)
+	ret, err := strconv.ParseUint(s[2:], 16, 31)
 	if err != nil {
 		return 0, err
 	}
-	if n > 4 {
-		return 0, fmt.Errorf("invalid hex string: too long")
-	}
-	var ret int32
-	switch n {
-	case 4:
-		ret = int32(dst[0])*16777216 + int32(dst[1])*65536 + int32(dst[2])*256 + int32(dst[3])
-	case 3:
-		ret = int32(dst[0])*65536 + int32(dst[1])*256 + int32(dst[2])
-	case 2:
-		ret = int32(dst[0])*256 + int32(dst[1])
-	case 1:
-		ret = int32(dst[0])
-	}
-	return ret, nil
+	return int32(ret), nil
 }
-- 
2.43.0


From 17d2a928a8cdd0f033eb6a53246ed6c9740b8fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 30/35] fix: an escape must be decoded after an unfinished one

The backslash that ended an unfinished escape was not taken as the begin of the
next one.
---
 dictionary/dicbuilder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index a54d3db..b149ed3 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -177,13 +177,10 @@ func (r *lexiconReader) decode(s []byte) []byte {
 		i += width
 		switch rc {
 		case '\\':
-			if nmark >= 0 {
-				nmark = -1
-			} else {
-				r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
-				last = i - width
-				umark = runecount
-			}
+			r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
+			last = i - width
+			umark = runecount
+			nmark = -1
 		case 'u':
 			if nmark >= 0 {
 				nmark = -1
-- 
2.43.0


From c53a80f550b752df35b0966435c88f52062019a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 31/35] fix: escapes of surrogates must be kept

They are no characters and were turned into U+FFFD.
---
 dictionary/dicbuilder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index b149ed3..4b9e0eb 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -206,8 +206,8 @@ func (r *lexiconReader) decode(s []byte) []byte {
 			if nmark >= 0 {
 				if brace && ncount >= 0 {
 					i32, err := strconv.ParseInt(string(s[numstart:i-width]), 16, 32)
-					if i32 <= 0x10FFFF && err == nil {
-						r.fieldBuffer = append(r.fieldBuffer, []byte(string(i32))...)
+					if err == nil && utf8.ValidRune(rune(i32)) {
+						r.fieldBuffer = append(r.fieldBuffer, []byte(string(rune(i32)))...)
 						last = i
 					}
 					brace = false
@@ -220,8 +220,8 @@ func (r *lexiconReader) decode(s []byte) []byte {
 				if !brace {
 					if ncount == 4 {
 						i32, err := strconv.ParseInt(string(s[numstart:i]), 16, 32)
-						if i32 <= 0x10FFFF && err == nil {
-							r.fieldBuffer = append(r.fieldBuffer, []byte(string(i32))...)
+						if err == nil && utf8.ValidRune(rune(i32)) {
+							r.fieldBuffer = append(r.fieldBuffer, []byte(string(rune(i32)))...)
 							last = i
 						}
 						nmark = -1
-- 
2.43.0


From a51dcd25b839205ae6c780d3fd99725ef0d89144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 32/35] fix: misplaced commas and points in numerals

A comma after a point, and an incomplete group or a point right before a unit,
were accepted.
---
 numericparser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index f80a862..0967a05 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -209,7 +209,7 @@ func (p *numericParser) append(c rune) bool {
 		p.hasComma = false
 		return true
 	} else if c == ',' {
-		if !p.checkComma() {
+		if !p.checkComma() || p.tmp.point >= 0 {
 			p.errorState = errComma
 			return false
 		}
@@ -222,6 +222,15 @@ func (p *numericParser) append(c rune) bool {
 	if !ok {
 		return false
 	}
+	if n < 0 {
+		if p.hasHangingPoint {
+			p.errorState = errPoint
+			return false
+		} else if p.hasComma && !p.checkComma() {
+			p.errorState = errComma
+			return false
+		}
+	}
 	if n < 0 && n >= -3 { // isSmallUnit
 		p.tmp.shiftScale(-n)
 		if !p.subtotal.add(p.tmp) {
-- 
2.43.0


From 7151116d82a969cee89b24897a1a2e90c67fb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 33/35] fix: a numeral out of order must not be joined because
 of a final point

done reported the hanging point although the parts did not add up, and the
caller joined the rest under an incomplete normalised form.
---
 numericparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numericparser.go b/numericparser.go
index 0967a05..e3ea311 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -264,7 +264,9 @@ func (p *numericParser) append(c rune) bool {
 }
 
 func (p *numericParser) done() bool {
-	ret := p.subtotal.add(p.tmp) && p.total.add(p.subtotal)
+	if !p.subtotal.add(p.tmp) || !p.total.add(p.subtotal) {
+		return false
+	}
 	if p.hasHangingPoint {
 		p.errorState = errPoint
 		return false
@@ -272,7 +274,7 @@ func (p *numericParser) done() bool {
 		p.errorState = errComma
 		return false
 	}
-	return ret
+	return true
 }
 
 func (p *numericParser) getNormalized() string {
-- 
2.43.0


From 5c2dfa8b7dda3caf1594f72f4ba638312e132148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 34/35] fix: numeric joining must not loop on commas that are
 of numeric category

The run was started again and again from its begin.
---
 joinnumericplugin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..ab54d5c 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -93,10 +93,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			for _, c := range s {
 				if !parser.append(c) {
 					if beginIndex >= 0 {
-						if parser.errorState == errComma {
+						if parser.errorState == errComma && commaAsDigit {
 							commaAsDigit = false
 							i = beginIndex - 1
-						} else if parser.errorState == errPoint {
+						} else if parser.errorState == errPoint && periodAsDigit {
 							periodAsDigit = false
 							i = beginIndex - 1
 						}
-- 
2.43.0


From f9d675f858e3182f171e6f7d9785f5e39048d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 35/35] fix: no unknown word candidate twice at the end of the
 text

Prefixes longer than the rest of the text were proposed as copies of it.
---
 mecaboovproviderplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 0e2daa3..92cf59b 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -110,7 +110,7 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 			if cinfo.isInvoke || !hasOtherWords {
 				for i := 1; i <= cinfo.length; i++ {
 					sublength := inputText.GetCodePointsOffsetLength(offset, i)
-					if sublength > llength {
+					if sublength > llength || inputText.CodePointCount(offset, offset+sublength) < i {
 						break
 					}
 					s := inputText.GetSubstring(offset, offset+sublength)
-- 
2.43.0

