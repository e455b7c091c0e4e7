From 8a86398424e30265fb7ce5d2bf72964a14aabdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 01/12] fix: look up a character's word in its word slot, not
 among its successor characters

HasTargetWord read the targets of the character slot, which hold the longer
bit paths. Words were therefore never found again, and a character whose bits
are a proper prefix of another stored character could not start a word at all.
---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From 4bbbfa0e6d41439c96d383fb5b6ce8a036e21381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 02/12] fix: propagate errors that were overwritten before
 being checked

A failing storage call, or an empty word inside a phrase, was ignored and the
following use of the missing value panicked (or, in the detail factory, created
a duplicate).
---
 internal/concrete/character/aggragate.go  |  3 +++
 internal/concrete/character/elements.go   |  3 +++
 internal/concrete/character/repository.go |  3 +++
 internal/concrete/detail/factory.go       |  3 +++
 internal/concrete/fact/aggregate.go       | 15 +++++++++++++++
 internal/concrete/phrase/aggregate.go     |  3 +++
 internal/concrete/phrase/repository.go    |  3 +++
 internal/concrete/remark/aggregate.go     |  3 +++
 internal/concrete/word/aggregate.go       |  3 +++
 internal/concrete/word/repository.go      |  3 +++
 10 files changed, 42 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From 10d66fba5f2a146b29444e813eefc3212fd3adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 03/12] fix: resolve a remark's fact and a fact's story before
 navigating or extending them

The remark's own slot was used where the slot of its fact was meant (and the
fact's own story slot instead of its story), so every added fact was chained to
the void node shared by all stories, had no story and no first remark.
---
 internal/concrete/fact/repository.go  | 14 ++++++--
 internal/concrete/remark/aggregate.go | 47 +++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..9284895 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,7 +87,12 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +136,12 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..a4fb3e8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -297,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -307,6 +332,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
@@ -347,7 +377,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e6f6c8f03a4e007c19295ff45897f5ea69f52f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 04/12] fix: append a new fact to the end of its story

Adding a second fact from the same remark gave one fact two successors, after
which the next fact could not be read any more.
---
 internal/concrete/fact/repository.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 9284895..14701a4 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -117,7 +117,30 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
+	lastFact := fact
+
+	for {
+		hasTargetFact, err := lastFact.HasTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := lastFact.GetTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	err = lastFact.PointToPosition(nextFact.GetPosition())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3759ef5eb3792b81131353c8fe4d5934f6c314ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 05/12] fix: chain sibling stories and read the parent link in
 one direction

A child story points to its parent's tree slot, so a parent's children are the
sources of that slot. Looking at its targets instead never found a sibling for
the children of a root story, and chained grandchildren behind their parent.
---
 internal/concrete/fact/aggregate.go  |  2 +-
 internal/concrete/fact/repository.go | 23 +++++++++++------------
 internal/concrete/story/entity.go    |  4 ++--
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..51e95e4 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -121,7 +121,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 14701a4..43d32ad 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -169,7 +169,7 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	hasSourceTree, err := story.HasSourceTree()
 	if err != nil {
 		return nil, err
 	}
@@ -179,14 +179,14 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
-	if err != nil {
-		return nil, err
-	}
+	if hasSourceTree {
 
-	if hasTargetTree {
+		sourceTree, err := story.GetSourceTree()
+		if err != nil {
+			return nil, err
+		}
 
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+		siblingStory, err := r.storyRepository.FetchByTree(sourceTree)
 		if err != nil {
 			return nil, err
 		}
@@ -216,12 +216,11 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		if err != nil {
 			return nil, err
 		}
+	}
 
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
-		}
-
+	err = childStory.PointToTree(story.GetTree())
+	if err != nil {
+		return nil, err
 	}
 
 	//
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..d56f9e3 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -130,8 +130,8 @@ func (e Entity) GetSourceTree() (uint, error) {
 		return 0, err
 	}
 
-	if len(sources) != 1 {
-		return 0, fmt.Errorf("story has wrong number of source trees")
+	if len(sources) == 0 {
+		return 0, fmt.Errorf("story has no source trees")
 	}
 
 	return sources[0], nil
-- 
2.43.0


From dbfa007ad764c0c6f83b40fcb1f768b812353dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 06/12] fix: keep the fact storage in facts reached by
 navigation

Facts returned by the To... methods had no storage and panicked on the next step.
---
 internal/concrete/fact/aggregate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 51e95e4..c4f2a7e 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
-- 
2.43.0


From d3d68dfea39dd6ad36a90298270ec23185aaa1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 07/12] fix: refuse to fetch a remark by an identifier of
 something else

GetRemark accepted every identifier present in the storage and returned a
meaningless remark; it now checks the class the way GetNextRemark does.
---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..5273132 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -94,6 +95,20 @@ func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate,
 		return nil, err
 	}
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remark.GetClass())
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("remark has wrong class: %d", remark.GetClass())
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    r.remarkStorage,
-- 
2.43.0


From ccb649b52911dd1133283778886032434594b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 08/12] fix: complete a detail before its phrases point to it

When creating a detail was interrupted after both phrases had been connected but
before its slots were chained, the unfinished detail was found and used by every
later attempt, and remarks attached to it could not be read.
---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1774a385173941bd2bb80bbbc58a8aa166c6e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 09/12] fix: chain a new fact or child story only after its
 first remark is attached

An operation interrupted between the two left a fact without a first remark in
the chain for good, so the facts behind it could not be reached any more.
---
 internal/abstract/fact/repository.go  |   4 +-
 internal/concrete/fact/repository.go  | 102 +++++++++++++++-----------
 internal/concrete/remark/aggregate.go |  32 ++++----
 3 files changed, 77 insertions(+), 61 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..0dc8d52 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -3,6 +3,6 @@ package fact
 type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
-	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	CreateNextFact(remarkIdentifier uint, attachRemark func(fact Aggregate) error) (Aggregate, error)
+	CreateChildStoryFact(remarkIdentifier uint, attachRemark func(fact Aggregate) error) (Aggregate, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 43d32ad..d5dd67a 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -80,7 +80,10 @@ func (r *Repository) FetchByRemark(remarkIdentifier uint) (abstractFact.Aggregat
 	}, nil
 }
 
-func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateNextFact(
+	remarkIdentifier uint,
+	attachRemark func(fact abstractFact.Aggregate) error,
+) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
@@ -117,6 +120,17 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
+	nextAggregate := Aggregate{
+		fact:            nextFact,
+		factStorage:     r.factStorage,
+		storyRepository: r.storyRepository,
+	}
+
+	err = attachRemark(nextAggregate)
+	if err != nil {
+		return nil, err
+	}
+
 	lastFact := fact
 
 	for {
@@ -145,14 +159,13 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	return Aggregate{
-		fact:            nextFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return nextAggregate, nil
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateChildStoryFact(
+	remarkIdentifier uint,
+	attachRemark func(fact abstractFact.Aggregate) error,
+) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
@@ -179,6 +192,46 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
+	//
+
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	classIdentifier, err := class.CreateFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	err = firstFact.PointToStory(childStory.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
+	err = childStory.PointToFact(firstFact.GetStory())
+	if err != nil {
+		return nil, err
+	}
+
+	firstAggregate := Aggregate{
+		fact:            firstFact,
+		factStorage:     r.factStorage,
+		storyRepository: r.storyRepository,
+	}
+
+	err = attachRemark(firstAggregate)
+	if err != nil {
+		return nil, err
+	}
+
+	//
+
 	if hasSourceTree {
 
 		sourceTree, err := story.GetSourceTree()
@@ -223,38 +276,5 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	//
-
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
-	}
-
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
-	}
-
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToStory(childStory.GetFact())
-	if err != nil {
-		return nil, err
-	}
-
-	err = childStory.PointToFact(firstFact.GetStory())
-	if err != nil {
-		return nil, err
-	}
-
-	//
-
-	return Aggregate{
-		fact:            firstFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return firstAggregate, nil
 }
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a4fb3e8..b6858a4 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -322,17 +322,15 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
-	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
-	if err != nil {
-		return nil, err
-	}
+	_, err = a.factRepository.CreateNextFact(factIdentifier, func(nextFact abstractFact.Aggregate) error {
 
-	err = remark.PointToFact(nextFact.GetRemark())
-	if err != nil {
-		return nil, err
-	}
+		err := remark.PointToFact(nextFact.GetRemark())
+		if err != nil {
+			return err
+		}
 
-	err = nextFact.PointToRemark(remark.GetFact())
+		return nextFact.PointToRemark(remark.GetFact())
+	})
 	if err != nil {
 		return nil, err
 	}
@@ -382,17 +380,15 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
-	if err != nil {
-		return nil, err
-	}
+	_, err = a.factRepository.CreateChildStoryFact(factIdentifier, func(firstFact abstractFact.Aggregate) error {
 
-	err = remark.PointToFact(firstFact.GetRemark())
-	if err != nil {
-		return nil, err
-	}
+		err := remark.PointToFact(firstFact.GetRemark())
+		if err != nil {
+			return err
+		}
 
-	err = firstFact.PointToRemark(remark.GetFact())
+		return firstFact.PointToRemark(remark.GetFact())
+	})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f1ba3612207215111c1ed3070a077658b7f38e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 10/12] fix: finish an interrupted first-time creation of the
 class nodes

---
 internal/concrete/class/repository.go | 117 +++++---------------------
 1 file changed, 20 insertions(+), 97 deletions(-)

diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index 5222321..38ae73b 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -37,117 +37,38 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 
 	if !r.isInitialized {
 
-		hasFirstNode, err := r.storage.Has(1)
-		if err != nil {
-			return Entity{}, err
-		}
-
-		if !hasFirstNode {
-			result, err := r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != bitIdentifier {
-				return Entity{}, fmt.Errorf("wrong bit class node %d", result)
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != characterIdentifier {
-				return Entity{}, fmt.Errorf("wrong character class node %d", result)
-			}
-
-			err = r.storage.SetReference(bitIdentifier, characterIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != wordIdentifier {
-				return Entity{}, fmt.Errorf("wrong word class node %d", result)
-			}
+		for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
 
-			err = r.storage.SetReference(characterIdentifier, wordIdentifier)
+			hasNode, err := r.storage.Has(identifier)
 			if err != nil {
 				return Entity{}, err
 			}
 
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
+			if !hasNode {
+				result, err := r.storage.Create()
+				if err != nil {
+					return Entity{}, err
+				}
 
-			if result != phraseIdentifier {
-				return Entity{}, fmt.Errorf("wrong phrase class node %d", result)
+				if result != identifier {
+					return Entity{}, fmt.Errorf("wrong class node %d instead of %d", result, identifier)
+				}
 			}
 
-			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)
-			if err != nil {
-				return Entity{}, err
+			if identifier == bitIdentifier {
+				continue
 			}
 
-			result, err = r.storage.Create()
+			previous, _, err := r.storage.GetReference(identifier)
 			if err != nil {
 				return Entity{}, err
 			}
 
-			if result != detailIdentifier {
-				return Entity{}, fmt.Errorf("wrong detail class node %d", result)
-			}
-
-			err = r.storage.SetReference(phraseIdentifier, detailIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != remarkIdentifier {
-				return Entity{}, fmt.Errorf("wrong position class node %d", result)
-			}
-
-			err = r.storage.SetReference(detailIdentifier, remarkIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != factIdentifier {
-				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
-			}
-
-			err = r.storage.SetReference(remarkIdentifier, factIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != storyIdentifier {
-				return Entity{}, fmt.Errorf("wrong story class node %d", result)
-			}
-
-			err = r.storage.SetReference(factIdentifier, storyIdentifier)
-			if err != nil {
-				return Entity{}, err
+			if previous != identifier-1 {
+				err = r.storage.SetReference(identifier-1, identifier)
+				if err != nil {
+					return Entity{}, err
+				}
 			}
 		}
 
@@ -161,6 +82,8 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 			node.NewFact(factIdentifier, r.storage),
 			node.NewStory(storyIdentifier, r.storage),
 		)
+
+		r.isInitialized = true
 	}
 
 	return r.entity, nil
-- 
2.43.0


From c199e6df642c387f13c62ac3e9e0aff8d82ca35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 11/12] fix: finish an interrupted first-time creation of the
 two bits

---
 internal/concrete/bit/layer.go | 133 +++++++++++----------------------
 1 file changed, 43 insertions(+), 90 deletions(-)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 0022055..caca6ba 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -35,113 +35,66 @@ func (l *layer) initialize() (Entity, Entity, error) {
 			return Entity{}, Entity{}, err
 		}
 
-		switch len(classIdentifiers) {
-		case 0:
-			var classIdentifiers [2]uint
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
-
-			classIdentifiers[0], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			classIdentifiers[1], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
-
-			// zero
-
-			zeroCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			err = l.storage.SetReference(zeroClassIdentifier, zeroCharacterIdentifier)
+		for len(classIdentifiers) < 2 {
+			classIdentifier, err := classEntity.CreateBit()
 			if err != nil {
 				return Entity{}, Entity{}, err
 			}
 
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
-
-			// one
+			classIdentifiers = append(classIdentifiers, classIdentifier)
+		}
 
-			oneCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		if len(classIdentifiers) != 2 {
+			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+		}
 
-			err = l.storage.SetReference(oneClassIdentifier, oneCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		var zeroClassIdentifier uint
+		var oneClassIdentifier uint
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
+		if classIdentifiers[0] < classIdentifiers[1] {
+			zeroClassIdentifier = classIdentifiers[0]
+			oneClassIdentifier = classIdentifiers[1]
+		} else {
+			zeroClassIdentifier = classIdentifiers[1]
+			oneClassIdentifier = classIdentifiers[0]
+		}
 
-		case 2:
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
+		l.zeroEntity, err = l.provideEntity(false, zeroClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
+		l.oneEntity, err = l.provideEntity(true, oneClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			// zero
+		l.isInitialized = true
+	}
 
-			_, zeroCharacterIdentifier, err := l.storage.GetReference(zeroClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+	return l.zeroEntity, l.oneEntity, nil
+}
 
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
+func (l *layer) provideEntity(value bool, classIdentifier uint) (Entity, error) {
 
-			// one
+	_, characterIdentifier, err := l.storage.GetReference(classIdentifier)
+	if err != nil {
+		return Entity{}, err
+	}
 
-			_, oneCharacterIdentifier, err := l.storage.GetReference(oneClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+	// interrupted before the character slot was set
+	if characterIdentifier == 0 {
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
-		default:
-			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+		characterIdentifier, err = l.storage.Create()
+		if err != nil {
+			return Entity{}, err
 		}
 
-		l.isInitialized = true
+		err = l.storage.SetReference(classIdentifier, characterIdentifier)
+		if err != nil {
+			return Entity{}, err
+		}
 	}
 
-	return l.zeroEntity, l.oneEntity, nil
+	return newEntity(value, classIdentifier, characterIdentifier, l.storage), nil
 }
-- 
2.43.0


From 4ee1f5235d0a2a8706ef682a2f77a60baf216afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 12/12] fix: refuse malformed text before creating the remark
 it was meant for

---
 internal/concrete/remark/aggregate.go  | 42 +++++++++++++-------------
 internal/concrete/remark/repository.go | 12 ++++----
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index b6858a4..90bc783 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -218,39 +218,39 @@ func (a Aggregate) GetObjectAndProperty() (string, string, error) {
 
 func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detailIdentifier, err := a.remark.GetSourceDetail()
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detailIdentifier, err := a.remark.GetSourceDetail()
+	detail, err := a.detailRepository.Provide(aggregateObject, property)
 	if err != nil {
 		return nil, err
 	}
 
-	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	detail, err := a.detailRepository.Provide(aggregateObject, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -288,24 +288,24 @@ func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, e
 
 func (a Aggregate) AddFactToStory(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := a.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := a.detailRepository.Provide(object, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -346,24 +346,24 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := a.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := a.detailRepository.Provide(object, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 5273132..bee2d3e 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -35,24 +35,24 @@ func NewRepository(
 
 func (r *Repository) CreateFirstUserRemark(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := r.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := r.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	class, err := r.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := r.detailRepository.Provide(object, property)
+	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

