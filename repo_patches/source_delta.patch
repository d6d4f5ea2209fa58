From cea363caba7ec03966c421a2684c5745dbf2efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 01/51] fix: do not modify the shared token regexes on every
 ParseJsonPath call (data race)

---
 jom/json_map/json_path_parse.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..d21a868 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -206,6 +206,15 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// Make every token regex prefer the leftmost-longest match.
+//
+// This is done once as Longest modifies the Regexp and the states are shared by every call to ParseJsonPath.
+func init() {
+	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
+		state.tokenRegex.Longest()
+	}
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -263,10 +272,6 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	currentState := &root
 	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
 
-	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-		state.tokenRegex.Longest()
-	}
-
 	for {
 		// Break out if at finish state
 		if currentState.name == "End" {
-- 
2.43.0


From 2eeb6a3489fed40f6c7e2239e49624ba5c0c98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 02/51] fix: report the error when a JSON path does not start
 with the root token

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index d21a868..a67a8aa 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -286,7 +286,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, err
 		}
 
 		// Consume len(token) number of bytes
-- 
2.43.0


From ea807c7187812b072df1d028b4f859b3a58b09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 03/51] fix: descend once per extra dot in a first descent with
 more than three dots

---
 jom/json_map/json_path_parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index a67a8aa..9689212 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -251,6 +251,15 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
 		// Add the nextPath variable to the end of all absolute paths
+		if next == &dot {
+			// Each extra dot is a further descent down the same paths rather than an alternative to the other dots
+			for _, nextPath := range nextPaths {
+				if errs = absolutePaths.AddToAll(nil, false, nextPath); errs != nil {
+					return nil, globals.JsonPathError.FillFromErrors(errs)
+				}
+			}
+			return next, nil
+		}
 		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
 		if errs != nil {
 			return nil, globals.JsonPathError.FillFromErrors(errs)
-- 
2.43.0


From 4e32a85ed479054107b19c7a7564f3791953d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 04/51] fix: treat a negative index in a JSON path as out of
 bounds instead of ignoring it

---
 jom/json_map/json_path_parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 9689212..b8a4942 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -74,9 +74,9 @@ var (
 			// Create an array of AbsolutePathKeys which will be added to the AbsolutePaths at the end
 			absolutePathKeys = make([]AbsolutePathKey, 0)
 			switch {
-			case regexp.MustCompile("\\[\\d+]").Match(token):
+			case regexp.MustCompile("\\[-?\\d+]").Match(token):
 				// Normal array index
-				n, err := strconv.Atoi(string(regexp.MustCompile("\\d+").Find(token)))
+				n, err := strconv.Atoi(string(regexp.MustCompile("-?\\d+").Find(token)))
 				if err != nil {
 					return absolutePathKeys, []error{globals.JsonPathError.FillError(fmt.Sprintf("Could not convert index %s into an integer", string(token)))}
 				}
-- 
2.43.0


From e182bc210ed1c1061e3605cb0bdfc6b0fb8f0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 05/51] fix: parse JSON path tokens that are longer than the
 default buffer size

---
 jom/json_map/json_path_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index b8a4942..9c64cfa 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -279,7 +279,8 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	absolutePaths = make(AbsolutePaths, 0)
 	previousState := &start
 	currentState := &root
-	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
+	// The whole path has to fit in the buffer as tokens are matched against what can be peeked
+	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath))
 
 	for {
 		// Break out if at finish state
-- 
2.43.0


From 8a1b4eca601a8ebf8595e1012dbc8c83fb82a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 06/51] fix: keep brackets that belong to a filter expression
 when parsing it

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 9c64cfa..92fce9d 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[len("[?(") : len(token)-len(")]")]),
 			}}
 			return absolutePathKeys, nil
 		},
-- 
2.43.0


From bce834aa665bacbecce3673d63bd17ca18a73ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 07/51] fix: end a filter token at its own closing bracket so
 that a path can contain several filters

---
 jom/json_map/json_path_parse.go | 34 +++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 92fce9d..704bd08 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -206,6 +206,36 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// Finds the location of the token at the start of the given characters. Like FindIndex returns nil if there is none.
+func (s *state) findToken(togo []byte) (occurrence []int) {
+	occurrence = s.tokenRegex.FindIndex(togo)
+	if s != &filter || len(occurrence) == 0 || occurrence[0] != 0 {
+		return occurrence
+	}
+	// The filter regex matches up to the last ")]" in the path, which might belong to a filter later on in the path.
+	// So we look for the ")]" that closes this filter: outside any string literals and outside any nested brackets.
+	depth, quote := 0, byte(0)
+	for i := len("[?("); i < occurrence[1]; i++ {
+		switch char := togo[i]; {
+		case quote != 0 && char == '\\':
+			i++
+		case quote != 0:
+			if char == quote {
+				quote = 0
+			}
+		case char == '\'' || char == '"':
+			quote = char
+		case depth == 0 && char == ')' && togo[i+1] == ']':
+			return []int{0, i + len(")]")}
+		case char == '(' || char == '[' || char == '{':
+			depth++
+		case char == ')' || char == ']' || char == '}':
+			depth--
+		}
+	}
+	return occurrence
+}
+
 // Make every token regex prefer the leftmost-longest match.
 //
 // This is done once as Longest modifies the Regexp and the states are shared by every call to ParseJsonPath.
@@ -228,7 +258,7 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		// Find which state is next by checking the regex of each possible state on the characters to go
 		for _, possibleState := range possibleStates {
 			// If possible state's regex matches the start of the characters to go then that is the next state
-			if occurrences := possibleState.tokenRegex.FindIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
+			if occurrences := possibleState.findToken(togo); len(occurrences) != 0 && occurrences[0] == 0 {
 				next = possibleState
 				token = togo[occurrences[0]:occurrences[1]]
 				break
@@ -292,7 +322,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// Peak all the bytes until the end of the buffer
 		next, _ := jsonPathReader.Peek(jsonPathReader.Size())
 		// Always try to find the longest
-		occurrences := currentState.tokenRegex.FindIndex(next)
+		occurrences := currentState.findToken(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-- 
2.43.0


From 809521210a05fca43502984e71d8f49aa6310258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 08/51] fix: do not lose the error of an earlier key when a
 filter comes later in the JSON path

---
 jom/jom.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..38c551d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -481,6 +481,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				currValue = currValueArr
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
+				// (unless a previous key could not be followed, in which case we keep that error)
+				if err != nil {
+					break
+				}
 				filterExp := []byte(key.Value.(string))
 				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
 				if err != nil {
@@ -545,6 +549,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				currValue = arr
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
+				// (unless a previous key could not be followed, in which case we keep that error)
+				if err != nil {
+					break
+				}
 				filterExp := []byte(key.Value.(string))
 				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
 				if err != nil {
-- 
2.43.0


From 9f7c44721a1b39e75346cb1ab1566d126fd6348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 09/51] fix: slices past the end of an array are out of bounds
 even if the array has spare capacity

---
 jom/jom.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 38c551d..3754dbf 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -606,7 +606,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 					}()
 					// Then set the current value to the slice
 					// NOTE this might panic so we set up a recovery function above so we can re-wrap any slice errors that occur
-					currValue = arr[sliceIndices[0]:sliceIndices[1]]
+					// NOTE the capacity is limited as otherwise indices past the end of the array could reach into its spare capacity
+					currValue = arr[sliceIndices[0]:sliceIndices[1]:len(arr)]
 				}()
 
 				// Break from the loop if an error has occurred
-- 
2.43.0


From ac5aa2835832c91786bb57fe337e6044b23cc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 10/51] fix: deleting every element of an empty array does not
 panic

---
 jom/jom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 3754dbf..1e4fbe4 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -763,6 +763,11 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 			// Takes an array of indices so that multiple indices can be deleted at once so that indices aren't messed
 			// up between deletions
 			setterArr := func(arrRef *[]interface{}, indices... int) {
+				// There is nothing to set or delete in an empty array
+				if len(*arrRef) == 0 {
+					return
+				}
+
 				// If the length of indices is 0 then we assume that the caller wants all the indices
 				if len(indices) == 0 {
 					indices = ints.Range(0, len(*arrRef) - 1, 1)
-- 
2.43.0


From 9167f88dc60fe59ff6943b35f52665f09bd0a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 11/51] fix: setting an empty slice sets nothing instead of
 every element of the array

---
 jom/jom.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 1e4fbe4..9f64309 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -988,7 +988,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					//fmt.Println("sliceIndices", sliceIndices)
 
-					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) {
+					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) || sliceIndices[0] > sliceIndices[1] {
 						panic(recursionError{fmt.Sprintf("Slice: [%v:%v] (translated to %v), is out of range", slice[0], slice[1], sliceIndices)})
 					}
 
@@ -997,8 +997,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						panic(recursionError{err.Error()})
 					}
 
-					// Then we iterate through a range of slice indices
-					setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					// Then we iterate through a range of slice indices (an empty slice selects nothing, so there is nothing to set)
+					if sliceIndices[0] < sliceIndices[1] {
+						setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					}
 				case json_map.RecursiveLookup:
 					// NOTE: The RecursiveLookup case is a special scenario where the traversal is continued within the
 					// recursive lookup function. This means after the function returns we can empty the path queue so
-- 
2.43.0


From 59179bf961dcdeb80d829c5b205f9146978e0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 12/51] fix: no spurious empty key in the absolute path of a
 node within an array

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 9f64309..9f7918a 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -684,7 +684,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From ab3bb83e47a6f4ffb9a57d1d55769e8059957842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 13/51] fix: return the nodes of a JSON path with several
 absolute paths in the order of the paths

---
 jom/jom.go | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 9f7918a..39ba792 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -351,8 +351,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 
 // Run by GetAbsolutePaths in parallel for each absolute path in an json_map.AbsolutePaths array to find the requested values.
 //
-// Each found value is pushed to valChan and each error is pushed to errChan. Once it has complete it calls Done on the wait group.
-func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{}, errChan chan<- error, valChan chan<- json_map.JsonPathNode, wg *sync.WaitGroup) {
+// The found value is stored in the given node, or the error that occurred in errRef. Once it has complete it calls Done on the wait group.
+func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{}, errRef *error, node *json_map.JsonPathNode, wg *sync.WaitGroup) {
 	defer wg.Done()
 	var currValue interface{} = jsonMap
 	var err error = nil
@@ -629,11 +629,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 	}
 
 	if err != nil {
-		// Push the error to the error channel if one has occurred
-		errChan <- err
+		// Return the error if one has occurred
+		*errRef = err
 	} else {
-		// Push the value into the value channel
-		valChan <- json_map.JsonPathNode{
+		// Otherwise return the value
+		*node = json_map.JsonPathNode{
 			Absolute: path,
 			Value:    currValue,
 		}
@@ -649,35 +649,34 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	// Create a wait group which all Finders will be added to
 	var wg sync.WaitGroup
 
-	// Both the channels can be buffered to be the length of the array of absolute paths to be evaluated
-	// Create a channel of errors which records all the errors that happen within the Finders
-	errsChan := make(chan error, len(*absolutePaths))
-	// Also create a channel for the return values found by the Finders
-	valuesChan := make(chan json_map.JsonPathNode, len(*absolutePaths))
+	// Each Finder has its own place for its result so that the results are in the order of the absolute paths
+	// All the errors that happen within the Finders
+	foundErrs := make([]error, len(*absolutePaths))
+	// The return values found by the Finders
+	found := make([]json_map.JsonPathNode, len(*absolutePaths))
 
 	// Start the finders
 	wg.Add(len(*absolutePaths))
-	for _, absolutePath := range *absolutePaths {
-		go pathFinder(absolutePath, jsonMap.insides, errsChan, valuesChan, &wg)
+	for i, absolutePath := range *absolutePaths {
+		go pathFinder(absolutePath, jsonMap.insides, &foundErrs[i], &found[i], &wg)
 	}
 
-	// Wait for all Finders and then close the errors channel
+	// Wait for all Finders
 	wg.Wait()
-	close(errsChan)
-	close(valuesChan)
 
-	if len(errsChan) > 0 {
-		errs = make([]error, 0)
-		// Consume all the errors in the channel and append them to the error return array
-		for err := range errsChan {
+	// Append all the errors that occurred to the error return array
+	for _, err := range foundErrs {
+		if err != nil {
 			errs = append(errs, err)
 		}
+	}
+	if errs != nil {
 		return values, errs
 	}
 
-	// Fill out the values array by consuming from the values channel
+	// Fill out the values array
 	values = make([]*json_map.JsonPathNode, 0)
-	for value := range valuesChan {
+	for _, value := range found {
 		//fmt.Println("Appending", value)
 		switch value.Value.(type) {
 		case []interface{}:
-- 
2.43.0


From d53f101bf9af7f55a2d8f8ef4ebbc361069bf952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 14/51] fix: filters on objects return their matches in key
 order

---
 jom/jom.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 39ba792..f3a4921 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -108,6 +108,15 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 	return &jsonMap.insides
 }
 
+// Returns the keys of the given map in alphabetical order.
+func sortedKeys(m map[string]interface{}) (keys []string) {
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Evaluates the given JSON path filter expression on the given obj on the given json map. Returns a list of values of
 // all nodes which are satisfied by the given filter expression. Filter expressions are evaluated using the otto JS
 // interpreter so (pretty much) any valid javascript can be written within them as long as they return a boolean value.
@@ -327,8 +336,9 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Start our for loop depending on whether our obj is a map[string]interface{} or a []interface{}
 	//fmt.Println("\nRunning filter: \"", string(filterExp), "\" on", obj)
 	if mapType {
-		for k, node := range obj.(map[string]interface{}) {
-			err = loopBody(k, node)
+		// The keys are visited in alphabetical order so that the result is in the same order each time
+		for _, k := range sortedKeys(obj.(map[string]interface{})) {
+			err = loopBody(k, obj.(map[string]interface{})[k])
 			if err != nil {
 				break
 			}
-- 
2.43.0


From 204e396f44009343eb0db719ce686b9f2105f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 15/51] fix: recursive lookups find values in a deterministic
 order

---
 jom/jom.go | 67 ++++++++++++++++--------------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index f3a4921..ed8491e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -9,7 +9,6 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"github.com/andygello555/gotils/concurrency"
 	"github.com/andygello555/gotils/ints"
 	"github.com/andygello555/gotils/maps"
 	"github.com/andygello555/gotils/slices"
@@ -369,78 +368,52 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 
 	// Temp helper function for recursive lookups
 	recursiveLookup := func(key json_map.AbsolutePathKey, arrOrMap interface{}) []interface{} {
-		// We'll have to spin up additional finders for every key within this map
-		// Create a wait group which all Sub-Finders will be added to
-		var subWg sync.WaitGroup
-		// Create an in and out channel using the InOut data structure
-		inFound, outFound := concurrency.InOut()
+		// The subtrees are searched one after the other, in key/index order, so that values are always found in the same order
 		toFind := key.Value.(string)
 		foundValues := make([]interface{}, 0)
 
 		// Set up a temp function for the RecursiveLookup finders
-		var subFinder func(subtree interface{}, subWg *sync.WaitGroup, toFind string, foundlings chan<- interface{})
-		subFinder = func(subtree interface{}, subWg *sync.WaitGroup, toFind string, foundlings chan<- interface{}) {
-			// Only defer done when a wait group is given
-			if subWg != nil {
-				defer subWg.Done()
-			}
-
+		var subFinder func(subtree interface{})
+		subFinder = func(subtree interface{}) {
 			switch subtree.(type) {
 			case map[string]interface{}:
 				subM := subtree.(map[string]interface{})
-				for subSubKey, subSubtree := range subM {
+				for _, subSubKey := range sortedKeys(subM) {
+					subSubtree := subM[subSubKey]
 					// Recurse into all the keys within the map checking if the key of the current subtree is equal to
 					// the key we are meant to be finding
 					if subSubKey == toFind {
-						// If so we add the subtree to the values channel
-						foundlings <- subSubtree
+						// If so we add the subtree to the found values
+						// If the value to add is an array then we will "unwrap" it
+						switch subSubtree.(type) {
+						case []interface{}:
+							foundValues = append(foundValues, subSubtree.([]interface{})...)
+						default:
+							foundValues = append(foundValues, subSubtree)
+						}
 					}
 					// ... we still traverse in order to explore everything
-					subFinder(subSubtree, nil, toFind, foundlings)
+					subFinder(subSubtree)
 				}
 			case []interface{}:
 				// Since an array doesn't have any keys to search for we will just recurse down
 				for _, subSubtree := range subtree.([]interface{}) {
-					subFinder(subSubtree, nil, toFind, foundlings)
+					subFinder(subSubtree)
 				}
-			default:
-				// Base case so we'll break and return
-				break
 			}
-			return
 		}
 
-		// Start the sub-finders for each sub-tree of depth one
+		// Start the finder for each sub-tree of depth one
 		// We do a type switch here to work out whether we are iterating over a map or on array
 		switch arrOrMap.(type) {
 		case map[string]interface{}:
 			m := arrOrMap.(map[string]interface{})
-			subWg.Add(len(m))
-			for _, value := range m {
-				go subFinder(value, &subWg, toFind, inFound)
+			for _, k := range sortedKeys(m) {
+				subFinder(m[k])
 			}
 		case []interface{}:
-			arr := arrOrMap.([]interface{})
-			subWg.Add(len(arr))
-			for _, value := range arr {
-				go subFinder(value, &subWg, toFind, inFound)
-			}
-		}
-
-		// Wait for all Finders and then close the input channel
-		subWg.Wait()
-		close(inFound)
-
-		// Finally we read all the values from the out channel and append them to the foundValues array
-		for v := range outFound {
-			// If the value added was an array then we will "unwrap" it
-			switch v.(type) {
-			case []interface{}:
-				for _, av := range v.([]interface{}) {
-					foundValues = append(foundValues, av)
-				}
-			default:
-				foundValues = append(foundValues, v)
+			for _, value := range arrOrMap.([]interface{}) {
+				subFinder(value)
 			}
 		}
 		return foundValues
-- 
2.43.0


From ce088efd9aa1254b227e996d1fa4fe3683ffe96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 16/51] fix: recursive lookups also find properties of the
 object they start from

---
 jom/jom.go | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index ed8491e..be965b1 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -403,19 +403,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			}
 		}
 
-		// Start the finder for each sub-tree of depth one
-		// We do a type switch here to work out whether we are iterating over a map or on array
-		switch arrOrMap.(type) {
-		case map[string]interface{}:
-			m := arrOrMap.(map[string]interface{})
-			for _, k := range sortedKeys(m) {
-				subFinder(m[k])
-			}
-		case []interface{}:
-			for _, value := range arrOrMap.([]interface{}) {
-				subFinder(value)
-			}
-		}
+		// Start from the map/array itself so that its own keys are searched as well
+		subFinder(arrOrMap)
 		return foundValues
 	}
 
@@ -815,25 +804,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					return newSubtree
 				}
 
-				// RECURSE DOWN EACH SUBTREE IN THE MAP/ARRAY
-				// We do a type switch here to work out whether we are iterating over a map or on array
-				switch arrOrMap.(type) {
-				case map[string]interface{}:
-					m := arrOrMap.(map[string]interface{})
-					mCopy := maps.CopyMap(m)
-					for k, v := range m {
-						mCopy[k] = subFinder(v, toFind)
-					}
-					newTree = mCopy
-				case []interface{}:
-					arr := arrOrMap.([]interface{})
-					arrCopy := make([]interface{}, len(arr))
-					for i, v := range arr {
-						arrCopy[i] = subFinder(v, toFind)
-					}
-					newTree = arrCopy
-				}
-				return newTree
+				// Recurse down from the map/array itself so that its own keys are searched as well
+				return subFinder(arrOrMap, toFind)
 			}
 
 			// StartEnd KeyTypes must be within a Slice key type so throw an error if so
-- 
2.43.0


From 9bbaedbbc97c86c7ad1ba19b14ec17b31014484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 17/51] fix: a filter's halting timer only interrupts the
 evaluation that it was started for

---
 jom/jom.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index be965b1..d627930 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -295,12 +295,15 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			// NOTE: the timer keeps its own reference to the channel as vm.Interrupt is replaced for the next node. An
+			//       expired timer mustn't interrupt the evaluation of any other node.
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
 
 			// Start the timer
 			go func() {
 				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
 			}()
-- 
2.43.0


From 9a2e621194f5dc5aa07bfc8bb048ce105b1a610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 18/51] fix: keep non-ASCII characters of filter expressions
 that contain a JSON path

---
 jom/jom.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index d627930..035e82c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -201,7 +201,14 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		// NOTE the locations are byte offsets so the bytes between them are copied as they are
+		replaced, end := make([]byte, 0), 0
+		for i, jsonPathLoc := range jsonPathIndices {
+			replaced = append(replaced, filterExp[end:jsonPathLoc[0]]...)
+			replaced = append(replaced, jsonPathLiterals[i]...)
+			end = jsonPathLoc[1]
+		}
+		filterExp = append(replaced, filterExp[end:]...)
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From 88c49cd4e966df0a102f15e2b1fc10502778e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 19/51] fix: a string literal in a filter expression ends with
 the quote it started with

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 035e82c..8c19147 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -124,7 +124,7 @@ func sortedKeys(m map[string]interface{}) (keys []string) {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile(`"([^"\\]|\\.)*"|'([^'\\]|\\.)*'`)
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From cb6901d2cacbe641275937554fca9541d926777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 20/51] fix: infinite recursion in a script or filter is an
 error instead of a stack overflow of the process

---
 code/js/js.go    | 2 ++
 globals/const.go | 1 +
 jom/jom.go       | 1 +
 3 files changed, 4 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..980b70a 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -468,6 +468,8 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
+	// Infinite recursion has to throw an error within the VM, before the stack of the entire process overflows
+	vm.SetStackDepthLimit(globals.StackDepthLimit)
 	// Register all builtins
 	for _, builtin := range builtinFuncs {
 		if err := vm.Set(builtin.name, builtin.function); err != nil {
diff --git a/globals/const.go b/globals/const.go
index 560baa9..62ff4b6 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -11,6 +11,7 @@ const (
 	JOMVariableName               = "json"
 	KeyValuePairDelim             = ':'
 	HaltingDelayUnits             = time.Second
+	StackDepthLimit               = 10000
 	ScriptErrorFormatString       = "script <%s>:\n```\n%s\n```"
 	AnonymousScriptPath           = "<anonymous>"
 	CurrentNodeLiteralVarName     = "__currentNodeLiteral__"
diff --git a/jom/jom.go b/jom/jom.go
index 8c19147..7360748 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -247,6 +247,7 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 	}
 	vm := otto.New()
+	vm.SetStackDepthLimit(globals.StackDepthLimit)
 
 	// Setup up an anonymous function which will make up our for loop body which iterates over our obj
 	loopBody := func(nodeIdx interface{}, node interface{}) (err error) {
-- 
2.43.0


From fe9ac6ab17408c7e8d7fde3b79751dfc06ac69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 21/51] fix: scripts running at the same time do not share the
 scope used by jsonPathSelector

---
 code/js/js.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 980b70a..fca9746 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,6 @@ var (
 	ExternalConsoleLogStderr io.Writer = os.Stderr
 )
 
-var toBeCloned json_map.JsonMapInt
-
 // Used to map a JS Object from Otto into a map so that it can be used.
 func traverseObject(object *otto.Object) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
@@ -149,7 +147,9 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(call otto.FunctionCall) otto.Value {
+//
+// The given scope is the JsonMap that the running script belongs to.
+func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -176,7 +176,7 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 		}
 		// Marshall the JSON string into a JsonMap
 		trailString, _ := trailStringValue.ToString()
-		jMap := toBeCloned.Clone(true)
+		jMap := scope.Clone(true)
 		err = jMap.Unmarshal([]byte(trailString))
 		if err != nil {
 			throw(fmt.Sprintf("cannot Unmarshall \"%s\" into a JsonMap", trailString))
@@ -364,7 +364,9 @@ var builtinVars = []struct{
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
-			"jsonPathSelector": jsonPathSelector,
+			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
+				return jsonPathSelector(call, jsonMap)
+			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
 		if val, err := runtime.ToValue(jom); err != nil {
@@ -464,7 +466,6 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 //
 // • The new json_map.JsonMapInt is returned.
 func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	toBeCloned = jsonMap
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
-- 
2.43.0


From dbe7f9525cded4fe765c5eee9a572165fdc2cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 22/51] fix: do not leak a goroutine for every Go callback that
 is run

---
 code/go/go.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..0c52cfb 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -33,7 +33,9 @@ func init() {
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
 	callback := code.Script.(func(json json_map.JsonMapInt))
-	interrupts := make(chan func() bool)
+	// Both the callback and the timer write to this channel exactly once but only the first write is guaranteed to be read
+	// so there has to be space for both, otherwise the goroutine that comes second is never able to finish
+	interrupts := make(chan func() bool, 2)
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
-- 
2.43.0


From e80a71914b36929a14d01f8043b8d8708e569978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 23/51] fix: setValues keeps arrays and null values within the
 value it is given

---
 code/js/js.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index fca9746..0d571db 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -12,7 +12,6 @@ import (
 	"github.com/robertkrimen/otto"
 	"io"
 	"os"
-	"reflect"
 	"strings"
 	"time"
 )
@@ -298,12 +297,18 @@ func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Va
 			throw("setValue takes a single argument")
 		}
 		value := call.Argument(0)
-		valueGo := toGo(value)
-
-		// Because the value returned by toGo can indeed by a pointer we need to do some suave reflect method calls to
-		// get the indirect value of the pointer if the Kind of value returned is indeed a pointer
-		if reflect.ValueOf(valueGo).Kind() == reflect.Ptr {
-			valueGo = reflect.Indirect(reflect.ValueOf(valueGo)).Interface()
+		// The value is passed to Go as JSON so that it ends up the same as if it were assigned to within json.trail
+		// NOTE: undefined has no JSON representation, it is treated the same as null
+		var valueGo interface{}
+		if value.IsDefined() {
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err == nil {
+				err = json.Unmarshal([]byte(valueString.String()), &valueGo)
+			}
+			if err != nil {
+				throw(fmt.Sprintf("\"%v\" is not JSON stringifiable: %v", value, err))
+			}
 		}
 
 		// Then we call SetAbsolutePaths
-- 
2.43.0


From f809e44881fbf9b1dd8ebd367b0ded4bc4cbff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 24/51] fix: a script cannot escape the halting timer through
 objects that belong to another VM

---
 code/js/js.go | 87 +++++++++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 54 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 0d571db..600f8d4 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -199,25 +199,13 @@ func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Va
 		throw(err.Error())
 	}
 
-	// Set up a temporary vm which we will use to construct the NodeSet
-	vmTemp := otto.New()
-
-	// Temp function to push a value to an array stored in the given variable name.
-	// This will first marshall the value into a JSON value in Go then parse the []byte to the VM which will use
-	// JSON.parse to parse the value and then push it to the array of the given name.
-	pushValue := func(arrName string, value interface{}) {
-		var valueStr []byte
-		valueStr, err = json.Marshal(value)
+	// Temp function to convert the given Go value to a JS value that belongs to the given VM
+	toJs := func(vm *otto.Otto, value interface{}) otto.Value {
+		jsValue, err := jsonToJs(vm, value)
 		if err != nil {
-			throw(fmt.Sprintf("cannot Marshal value: \"%v\"", value))
-		}
-		// Then push the value to the nodeSet array within the VM
-		currentName := fmt.Sprintf("%sCurrStr", arrName)
-		_ = vmTemp.Set(currentName, string(valueStr))
-		_, err = vmTemp.Run(fmt.Sprintf("%s.push(JSON.parse(%s))", arrName, currentName))
-		if err != nil {
-			throw(fmt.Sprintf("could not push current node: \"%v\", to %s", string(valueStr), arrName))
+			throw(fmt.Sprintf("cannot convert value: \"%v\" to JS: %v", value, err))
 		}
+		return jsValue
 	}
 
 	var setupKeyObject func(path json_map.AbsolutePathKey) map[string]interface{}
@@ -228,11 +216,11 @@ func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Va
 		switch path.KeyType {
 		case json_map.Slice:
 			// In cases of slices we have to setup a new array
-			_, _ = vmTemp.Run("sliceArray = []")
+			sliceArray := make([]interface{}, 0)
 			for _, slice := range path.Value.([]json_map.AbsolutePathKey) {
-				pushValue("sliceArray", setupKeyObject(slice))
+				sliceArray = append(sliceArray, setupKeyObject(slice))
 			}
-			absolutePathKeyMap["key"], _ = vmTemp.Get("sliceArray")
+			absolutePathKeyMap["key"] = sliceArray
 		default:
 			absolutePathKeyMap["key"] = path.Value
 		}
@@ -242,30 +230,21 @@ func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Va
 	// Create a node set map which will store the object we need to return
 	nodeSetMap := make(map[string]interface{})
 
-	_, _ = vmTemp.Run("absoluteValues = []")
+	absoluteValues := make([]interface{}, 0)
 	for _, paths := range absolutePaths {
-		_, _ = vmTemp.Run("currentPath = []")
+		currentPath := make([]interface{}, 0)
 		for _, path := range paths {
-			pathMap := setupKeyObject(path)
-			var value otto.Value
-			value, err = vmTemp.ToValue(pathMap)
-			if err != nil {
-				throw(err.Error())
-			}
-			_ = vmTemp.Set("currentKey", value)
-			// Append to array
-			_, _ = vmTemp.Run("currentPath.push(currentKey)")
+			currentPath = append(currentPath, setupKeyObject(path))
 		}
 		// Append the current path to the absolute paths array
-		_, _ = vmTemp.Run("absoluteValues.push(currentPath)")
+		absoluteValues = append(absoluteValues, currentPath)
 	}
-	nodeSetMap["_absolutePaths"], _ = vmTemp.Get("absoluteValues")
+	nodeSetMap["_absolutePaths"] = toJs(vm, absoluteValues)
 
 	// Set getter and setter funcs
 	nodeSetMap["getValues"] = func(call otto.FunctionCall) otto.Value {
 		// Get the most "up to date" json map from json.trail
 		jsonMap := getJsonMap(call.Otto)
-		_, _ = vmTemp.Run("nodeValues = []")
 		nodes := getAbsPaths(&absolutePaths, jsonMap)
 
 		// Expand the first element if we only have one element and its an array
@@ -283,11 +262,11 @@ func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Va
 			}
 		}
 
+		nodeValues := make([]interface{}, 0)
 		for _, value := range nodes {
-			pushValue("nodeValues", value.Value)
+			nodeValues = append(nodeValues, value.Value)
 		}
-		nodeValues, _ := vmTemp.Get("nodeValues")
-		return nodeValues
+		return toJs(call.Otto, nodeValues)
 	}
 
 	nodeSetMap["setValues"] = func(call otto.FunctionCall) otto.Value {
@@ -322,7 +301,7 @@ func jsonPathSelector(call otto.FunctionCall, scope json_map.JsonMapInt) otto.Va
 
 		// Then we update the current json.trail object with the createJom function which will recreate the jom
 		var trail otto.Value
-		trail, err = createJom(jsonMap)
+		trail, err = createJom(call.Otto, jsonMap)
 		if err != nil {
 			throw("Could not JOM-ify modified JsonMap")
 		}
@@ -363,7 +342,7 @@ var builtinVars = []struct{
 	{globals.JOMVariableName, func(i ...interface{}) interface{} {
 		runtime := i[0].(*otto.Otto)
 		jsonMap := i[1].(json_map.JsonMapInt)
-		trail, err := createJom(jsonMap)
+		trail, err := createJom(runtime, jsonMap)
 		if err != nil {
 			panic(globals.BuiltinGetterError.FillError("json.trail", "Could not JOM-ify", err.Error()))
 		}
@@ -402,27 +381,27 @@ var builtinVars = []struct{
 	}},
 }
 
-// Create the JOM within a Javascript VM, assign all necessary functions and retrieve the variable from within the VM.
+// Converts the given Go value to a JS value within the given VM by parsing the value's JSON.
 //
-// This will create a JOM for the scope of the given json map.
-// Note: This needs to be used to correctly parse Go arrays ([]interface{}) as JS arrays and not JS objects.
-// Returns an otto.Value which can be plugged into the VM which will run the scripts. If an error occurs at any point.
-// then an otto.NullValue and the error are returned.
-func createJom(jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
-	// Convert the map to json
+// The value has to belong to the VM that the script runs in. If it belonged to another VM then the script could reach that
+// VM's builtins through it, and anything executed by these cannot be interrupted.
+func jsonToJs(vm *otto.Otto, value interface{}) (jsValue otto.Value, err error) {
 	var jsonDataBytes []byte
-	jsonDataBytes, err = json.Marshal(jsonMap.GetInsides())
+	jsonDataBytes, err = json.Marshal(value)
 	if err != nil {
 		return otto.NullValue(), err
 	}
-	jsonData := string(jsonDataBytes)
+	return vm.Call("JSON.parse", nil, string(jsonDataBytes))
+}
 
-	// Create a VM, parse the json string and get the value out of the VM
-	vm := otto.New()
-	if err := vm.Set("jsonString", jsonData); err != nil {
-		return otto.NullValue(), err
-	}
-	run, err = vm.Run("JSON.parse(jsonString)")
+// Create the JOM within a Javascript VM and return it.
+//
+// This will create a JOM for the scope of the given json map.
+// Note: This needs to be used to correctly parse Go arrays ([]interface{}) as JS arrays and not JS objects.
+// Returns an otto.Value which can be plugged into the VM which will run the scripts. If an error occurs at any point.
+// then an otto.NullValue and the error are returned.
+func createJom(vm *otto.Otto, jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
+	run, err = jsonToJs(vm, jsonMap.GetInsides())
 	if err != nil {
 		return otto.NullValue(), err
 	}
-- 
2.43.0


From 2e5f86c7f71c8c97b6285de47bd4fe3bcb1afcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 25/51] fix: printing an object with a circular reference does
 not overflow the stack of the process

---
 code/js/js.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 600f8d4..f8dbae3 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,11 @@ var (
 )
 
 // Used to map a JS Object from Otto into a map so that it can be used.
-func traverseObject(object *otto.Object) *map[string]interface{} {
+//
+// The ancestors are the objects that the given object is contained in. They are used to stop at circular references.
+func traverseObject(object *otto.Object, ancestors ...otto.Value) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	ancestors = append(ancestors[:len(ancestors):len(ancestors)], object.Value())
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
@@ -55,9 +58,20 @@ func traverseObject(object *otto.Object) *map[string]interface{} {
 			boolean, _ := val.ToBoolean()
 			realVal = boolean
 		} else if val.IsObject() {
-			obj := val.Object()
-			objectMapInner := traverseObject(obj)
-			realVal = *objectMapInner
+			circular := false
+			for _, ancestor := range ancestors {
+				if ancestor == val {
+					circular = true
+					break
+				}
+			}
+			if circular {
+				realVal = "[Circular]"
+			} else {
+				obj := val.Object()
+				objectMapInner := traverseObject(obj, ancestors...)
+				realVal = *objectMapInner
+			}
 		}
 		objectMap[key] = realVal
 	}
-- 
2.43.0


From caacfea02b6b81415f5a6e4eb3700e681959bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 26/51] fix: do not run or restore fields found by an earlier
 Run or Strip of the same JsonMap

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 7360748..32b4b83 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1154,6 +1154,10 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// join a scriptFields subtree to its parent tree.
 	found = false
 
+	// Forget the fields that were found by a previous call as they might no longer exist
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
+
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
 		case map[string]interface{}:
-- 
2.43.0


From 9312c4d9b2fa09333d5728b98190213106d2f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 27/51] fix: find, run and strip scripts that are only within
 arrays or nested arrays

---
 jom/jom.go | 92 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 37 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 32b4b83..e9b3e14 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1145,6 +1145,39 @@ func (jsonMap *JsonMap) MarkupCode(jsonPath string, shebangName string, script s
 	return err
 }
 
+// Finds all the script and non-script fields within the objects of an array and its nested arrays.
+func findArrayScriptFields(array []interface{}) (scriptArray []interface{}, nonScriptArray []interface{}, found bool) {
+	// Allocate matching arrays
+	scriptArray = make([]interface{}, len(array))
+	nonScriptArray = make([]interface{}, len(array))
+
+	for i, inner := range array {
+		switch inner.(type) {
+		case map[string]interface{}:
+			// Recurse over all objects
+			innerMap := NewFromMap(inner.(map[string]interface{}))
+			if innerMap.FindScriptFields() {
+				found = true
+				scriptArray[i] = innerMap.traversal.script
+			}
+			// Always join nonScriptFieldsInner back into main array
+			nonScriptArray[i] = innerMap.traversal.nonScript
+		case []interface{}:
+			// Recurse over all nested arrays
+			scriptArrayInner, nonScriptArrayInner, foundInner := findArrayScriptFields(inner.([]interface{}))
+			if foundInner {
+				found = true
+				scriptArray[i] = scriptArrayInner
+			}
+			nonScriptArray[i] = nonScriptArrayInner
+		default:
+			// The current element is left as nil in the scriptArray to indicate that there is no script here
+			nonScriptArray[i] = inner
+		}
+	}
+	return scriptArray, nonScriptArray, found
+}
+
 // Finds all the script and non-script fields within a JsonMap.
 //
 // Updates the script and nonScript fields within the JsonMap's traversal object. Scripts will be replaced by a code.Code
@@ -1173,33 +1206,10 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 			// Always join the nonScriptFieldsInner back into the main tree (nonScriptFields)
 			jsonMap.traversal.nonScript[key] = innerMap.traversal.nonScript
 		case []interface{}:
-			// Allocate a matching array
-			arrayLen := len(element.([]interface{}))
-			scriptArrayInner := make([]interface{}, arrayLen)
-			nonScriptArrayInner := make([]interface{}, arrayLen)
-			foundInner := false
-
-			for i, inner := range element.([]interface{}) {
-				switch inner.(type) {
-				case map[string]interface{}:
-					// Recurse over all objects
-					innerMap := NewFromMap(inner.(map[string]interface{}))
-					foundInnerInner := innerMap.FindScriptFields()
-					if foundInnerInner {
-						foundInner = true
-						scriptArrayInner[i] = innerMap.traversal.script
-					}
-					// Always join nonScriptFieldsInner back into main array (nonScriptArrayInner)
-					nonScriptArrayInner[i] = innerMap.traversal.nonScript
-				default:
-					// Fill current element with nil in the scriptArray to indicate that there is no script here
-					scriptArrayInner[i] = nil
-					nonScriptArrayInner[i] = inner
-				}
-			}
-
+			scriptArrayInner, nonScriptArrayInner, foundInner := findArrayScriptFields(element.([]interface{}))
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
@@ -1311,24 +1321,32 @@ func (jsonMap *JsonMap) Run() {
 			jsonMap.insides[key] = jsonInnerMap.insides
 		case []interface{}:
 			elementArray := element.([]interface{})
-			// Iterate over array and recurse on all objects that may be inside the array
-			for i, inner := range elementArray {
-				switch inner.(type) {
-				case map[string]interface{}:
-					jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
-					// Remember to update the scope path of the new JsonMap
-					_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.%s.[%d]", jsonMap.traversal.scopePath.String(), key, i)
-					jsonInnerInnerMap.Run()
-					// Join the subtree back into the array
-					elementArray[i] = jsonInnerInnerMap.insides
-				}
-			}
+			runArray(elementArray, fmt.Sprintf("%s.%s", jsonMap.traversal.scopePath.String(), key))
 			// Join array back into the main tree
 			jsonMap.insides[key] = elementArray
 		}
 	}
 }
 
+// Runs all the scripts within the objects of the given array, and its nested arrays, which is at the given scope path.
+func runArray(array []interface{}, scopePath string) {
+	// Iterate over array and recurse on all objects that may be inside the array
+	for i, inner := range array {
+		innerPath := fmt.Sprintf("%s.[%d]", scopePath, i)
+		switch inner.(type) {
+		case map[string]interface{}:
+			jsonInnerMap := NewFromMap(inner.(map[string]interface{}))
+			// Remember to update the scope path of the new JsonMap
+			_, _ = fmt.Fprint(jsonInnerMap.traversal.scopePath, innerPath)
+			jsonInnerMap.Run()
+			// Join the subtree back into the array
+			array[i] = jsonInnerMap.insides
+		case []interface{}:
+			runArray(inner.([]interface{}), innerPath)
+		}
+	}
+}
+
 // Unmarshal a hjson byte string and package it as a JsonMap.
 func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	// Decode and a check for errors.
-- 
2.43.0


From c422ba76ee47fbc489d60c9882012e7add8cfc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 28/51] fix: Unmarshal into a JsonMap that previously had an
 array at its root, and report parse errors when doing so

---
 jom/jom.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index e9b3e14..3ee7087 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1353,19 +1353,23 @@ func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
-				jsonMap.insides["array"] = rootArray
+				jsonMap.insides = map[string]interface{}{"array": rootArray}
+				jsonMap.Array = true
 			}
 		}
-		if !jsonMap.Array {
-			return err
-		}
+		return err
+	}
+	if jsonMap.Array {
+		// The root is no longer an array so the array that was previously unmarshalled has to go
+		jsonMap.Array = false
+		jsonMap.insides = make(map[string]interface{})
+		err = hjson.Unmarshal(jsonBytes, &jsonMap.insides)
 	}
-	return nil
+	return err
 }
 
 // Marshal a JsonMap back into JSON.
-- 
2.43.0


From e648b6d5c42a95cd47a7347bbe60f63e17d1772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 29/51] fix: locations that are set to the same object or array
 do not share it

---
 jom/jom.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3ee7087..bd7bd93 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -107,6 +107,26 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 	return &jsonMap.insides
 }
 
+// Returns a copy of the given value which doesn't share any of the maps/arrays within it.
+func deepCopy(value interface{}) interface{} {
+	switch value.(type) {
+	case map[string]interface{}:
+		m := make(map[string]interface{}, len(value.(map[string]interface{})))
+		for k, v := range value.(map[string]interface{}) {
+			m[k] = deepCopy(v)
+		}
+		return m
+	case []interface{}:
+		arr := make([]interface{}, len(value.([]interface{})))
+		for i, v := range value.([]interface{}) {
+			arr[i] = deepCopy(v)
+		}
+		return arr
+	default:
+		return value
+	}
+}
+
 // Returns the keys of the given map in alphabetical order.
 func sortedKeys(m map[string]interface{}) (keys []string) {
 	for k := range m {
@@ -730,7 +750,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					return newValue
 				}
-				return value
+				// Each location gets its own copy so that the locations that are set don't share any maps/arrays
+				return deepCopy(value)
 			}
 
 			// Specific setters for maps and arrays. Takes a reference to a map/array and modifies in place
-- 
2.43.0


From 611912c4fcd4d99de76249313853f8c9dc52739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 30/51] fix: Clone returns an independent JsonMap that keeps
 the Array field

---
 jom/jom.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index bd7bd93..7fcb000 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -83,10 +83,11 @@ func NewFromMap(jsonMap map[string]interface{}) *JsonMap {
 // Note: This is primarily used when using json_map.JsonMapInt to return a new JsonMap to avoid cyclic imports.
 func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 	if !clear {
-		return &JsonMap{
-			insides:   jsonMap.insides,
-			traversal: jsonMap.traversal,
-		}
+		// The clone does not share any maps/arrays with the original
+		clone := NewFromMap(deepCopy(jsonMap.insides).(map[string]interface{}))
+		clone.traversal.scopePath.WriteString(jsonMap.GetCurrentScopePath())
+		clone.Array = jsonMap.Array
+		return clone
 	}
 	cleared := New()
 	// The cleared Array still inherits the Array field from the Cloned Array
-- 
2.43.0


From 2b4402ced9ee22a54a7d6834d93f5da7b9763199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 31/51] fix: MustPop ignores negative indices without ignoring
 the indices that follow

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 7fcb000..d783516 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1541,6 +1541,10 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 	newArr := make([]interface{}, 0)
 
 	var currIdx int
+	// Negative indices are out of range so they are ignored as well
+	for len(indices) > 1 && indices[0] < 0 {
+		indices = indices[1:]
+	}
 	currIdx, indices = indices[0], indices[1:]
 
 	for i, node := range nodes {
-- 
2.43.0


From 6a2ae53e3bcf59f49bf459c8d7b9d27b5ddae2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 32/51] fix: MustPush to and MustPop from an array that is
 empty

---
 jom/jom.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index d783516..1ac0990 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1481,6 +1481,31 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 	jsonMap.MustSet(jsonPath, nil)
 }
 
+// Whether the given JSON path leads to a single array that is empty.
+//
+// Only followed for properties and indices as other keys, such as wildcards or filters, can just have nothing to select.
+func (jsonMap *JsonMap) isEmptyArray(jsonPath string) bool {
+	paths, err := json_map.ParseJsonPath(jsonPath)
+	if err != nil || len(paths) != 1 {
+		return false
+	}
+	var value interface{} = jsonMap.insides
+	for _, key := range paths[0] {
+		m, isMap := value.(map[string]interface{})
+		arr, isArray := value.([]interface{})
+		switch {
+		case isMap && key.KeyType == json_map.StringKey:
+			value = m[key.Value.(string)]
+		case isArray && key.KeyType == json_map.IndexKey && key.Value.(int) < len(arr):
+			value = arr[key.Value.(int)]
+		default:
+			return false
+		}
+	}
+	arr, isArray := value.([]interface{})
+	return isArray && len(arr) == 0
+}
+
 // Pushes to an []interface{} indicated by the given JSON path at the given indices and panics if any errors occur.
 //
 // Note: This assumes that the JSON path points to an array and will use JsonPathSetter to set the JSON path to be the array selected + the pushed values.
@@ -1496,7 +1521,7 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 // • If a given index is greater than the length of the array to insert to, all empty spaces will be filled with nil.
 func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices... int) {
 	nodes := jsonMap.MustGet(jsonPath)
-	if nodes == nil {
+	if nodes == nil && !jsonMap.isEmptyArray(jsonPath) {
 		panic(errors.New(fmt.Sprintf("no node at \"%s\" to push to", jsonPath)))
 	}
 
@@ -1526,7 +1551,7 @@ func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices...
 // • Indices that are not within the range of the array will be ignored.
 func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []interface{}) {
 	nodes := jsonMap.MustGet(jsonPath)
-	if nodes == nil {
+	if nodes == nil && !jsonMap.isEmptyArray(jsonPath) {
 		panic(errors.New(fmt.Sprintf("no node at \"%s\" to pop from", jsonPath)))
 	}
 
-- 
2.43.0


From 82675efdbd6ea9632bad2aee21f7285c06ef2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 33/51] fix: output the results of several files in the order
 that the files were given

---
 json-dom.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json-dom.go b/json-dom.go
index fb6d6d3..6e15c6e 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -175,6 +175,8 @@ func main() {
 			filesPtr := element["files"].(*Files)
 			inputPtr := element["input"].(*string)
 
+			// The names of the data in the order that they were given
+			dataNames := make([]string, 0)
 			dataSet := make(map[string][]byte, 0)
 			if len(*filesPtr) != 0 || *inputPtr != "" {
 				// If both a file and a stdin input is given then evaluate the files first
@@ -207,11 +209,15 @@ func main() {
 						if err != nil {
 							globals.ReadFileErr.Handle(err)
 						}
+						if _, ok := dataSet[file]; !ok {
+							dataNames = append(dataNames, file)
+						}
 						dataSet[file] = data
 					}
 				} else {
 					// Convert the input to a byte buffer
 					data = []byte(*inputPtr)
+					dataNames = append(dataNames, "stdin")
 					dataSet["stdin"] = data
 				}
 			} else {
@@ -220,7 +226,8 @@ func main() {
 					element["flagSet"].(*flag.FlagSet))
 			}
 
-			for dataName, data := range dataSet {
+			for _, dataName := range dataNames {
+				data := dataSet[dataName]
 				if verbose {
 					fmt.Printf("\n%s:\n", dataName)
 				}
-- 
2.43.0


From b8f34b567d1a4fb9f036427b2111d96ef96afd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 34/51] fix: mark up the JSONPath-script pairs in the order
 that they were given

---
 json-dom.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index 6e15c6e..e0d99dc 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -34,14 +34,16 @@ func (s *Files) Set(value string) error {
 }
 
 // Flag Type for a JsonPathScriptPair flag
-type JsonPathScriptPair map[string]string
+//
+// A list of [JSON path, script] pairs in the order that they were given.
+type JsonPathScriptPair [][2]string
 
 // Returns the String representation of the JsonPathScriptPair flag
 func (jpscp *JsonPathScriptPair) String() string {
 	// a=b, c=d, ...
 	var b strings.Builder
-	for key, element := range *jpscp {
-		_, err := fmt.Fprintf(&b, "%v%c%v,", key, globals.KeyValuePairDelim, element)
+	for _, pair := range *jpscp {
+		_, err := fmt.Fprintf(&b, "%v%c%v,", pair[0], globals.KeyValuePairDelim, pair[1])
 		if err != nil {
 			globals.FormatErr.Handle(err)
 		}
@@ -59,7 +61,7 @@ func (jpscp *JsonPathScriptPair) String() string {
 // Sets the value of the Files flag
 func (jpscp *JsonPathScriptPair) Set(value string) error {
 	jsonPathScripts := strings.Split(value, ",")
-	*jpscp = make(JsonPathScriptPair)
+	*jpscp = make(JsonPathScriptPair, 0)
 	for _, jsonPathScript := range jsonPathScripts {
 		jsonPathScriptArr := strings.Split(jsonPathScript, string(globals.KeyValuePairDelim))
 		// Throw an error if len is 0, aka: string is "="
@@ -78,9 +80,9 @@ func (jpscp *JsonPathScriptPair) Set(value string) error {
 
 		if len(jsonPathScriptArr) == 1 {
 			// Use the default value of "0" if no value is specified
-			(*jpscp)[jsonPathScriptArr[0]] = "// No script specified"
+			*jpscp = append(*jpscp, [2]string{jsonPathScriptArr[0], "// No script specified"})
 		} else {
-			(*jpscp)[jsonPathScriptArr[0]] = jsonPathScriptArr[1]
+			*jpscp = append(*jpscp, [2]string{jsonPathScriptArr[0], jsonPathScriptArr[1]})
 		}
 	}
 	return nil
@@ -270,8 +272,8 @@ func main() {
 					}
 
 					// Run the Markup for all paths
-					for path, script := range *pathScripts {
-						err = jsonMap.MarkupCode(path, *language, script)
+					for _, pathScript := range *pathScripts {
+						err = jsonMap.MarkupCode(pathScript[0], *language, pathScript[1])
 						if err != nil {
 							globals.MarkupErr.Handle(err)
 						}
-- 
2.43.0


From 06d5216ff6d6d26c95920027109dacff0741a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 35/51] fix: evaluate JSON paths within filters against the
 document before it is set

---
 jom/jom.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 1ac0990..14e3c52 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -721,6 +721,9 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 		Message string
 	}
 
+	// The map that the JSON paths within filter expressions are evaluated in: the map before the current path is set
+	var filterRoot map[string]interface{}
+
 	// Set up the recursive function which will be run on all absolute paths
 	var recursiveTraversal func(remainingPath []json_map.AbsolutePathKey, currTree interface{}) interface{}
 	recursiveTraversal = func(remainingPath []json_map.AbsolutePathKey, currTree interface{}) interface{} {
@@ -870,7 +873,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					var newSubtreeIndices interface{}
 					// Using the filterRunner function we can run the filter on the values of each key in the map
 					filterExp := []byte(key.Value.(string))
-					newSubtreeIndices, err = filterRunner(m, filterExp, jsonMap.insides, true, true)
+					newSubtreeIndices, err = filterRunner(m, filterExp, filterRoot, true, true)
 					if err != nil {
 						panic(recursionError{err.Error()})
 					}
@@ -939,7 +942,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					var newSubtreeIndices interface{}
 					// Using the filterRunner function we can run the filter on the elements of the array
 					filterExp := []byte(key.Value.(string))
-					newSubtreeIndices, err = filterRunner(arr, filterExp, jsonMap.insides, false, true)
+					newSubtreeIndices, err = filterRunner(arr, filterExp, filterRoot, false, true)
 					if err != nil {
 						panic(recursionError{err.Error()})
 					}
@@ -1027,6 +1030,14 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 				}
 			}()
 
+			// Filter expressions mustn't see the changes that are made along the way as these are made in no particular order
+			for _, key := range path {
+				if key.KeyType == json_map.Filter {
+					filterRoot = deepCopy(jsonMap.insides).(map[string]interface{})
+					break
+				}
+			}
+
 			// Run the recursive traversal function for the current path
 			newInsides := recursiveTraversal(path, jsonMap.insides)
 			// Depending what type was returned from the function take the appropriate action
-- 
2.43.0


From f22820ca7033355b47ceb983bb3a83c9878e15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 36/51] fix: do not let the timer of one node's filter
 interrupt the preparation of the next node

---
 jom/jom.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 14e3c52..442c53d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -310,6 +310,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			// This will catch any panics thrown by running the script/the timer
 			defer func() {
 				duration := time.Since(start)
+				// The timer mustn't interrupt anything that is run within the VM from here on
+				vm.Interrupt = nil
 				if caught := recover(); caught != nil {
 					// If the caught error is the HaltingProblem var then package it up using FillError and set the outer error
 					if caught == globals.HaltingProblem {
-- 
2.43.0


From 363ce76d2cf1afec28db15738f43a1a4d9812763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 37/51] fix: scripts and filters see the keys of objects in the
 same order each time

---
 code/js/js.go | 5 +++--
 jom/jom.go    | 9 +++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index f8dbae3..c41656f 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -395,7 +395,7 @@ var builtinVars = []struct{
 	}},
 }
 
-// Converts the given Go value to a JS value within the given VM by parsing the value's JSON.
+// Converts the given Go value to a JS value within the given VM by running the value's JSON as a literal.
 //
 // The value has to belong to the VM that the script runs in. If it belonged to another VM then the script could reach that
 // VM's builtins through it, and anything executed by these cannot be interrupted.
@@ -405,7 +405,8 @@ func jsonToJs(vm *otto.Otto, value interface{}) (jsValue otto.Value, err error)
 	if err != nil {
 		return otto.NullValue(), err
 	}
-	return vm.Call("JSON.parse", nil, string(jsonDataBytes))
+	// NOTE: the JSON is run as a literal as JSON.parse adds the keys of each object in a random order
+	return vm.Run(fmt.Sprintf("(%s)", jsonDataBytes))
 }
 
 // Create the JOM within a Javascript VM and return it.
diff --git a/jom/jom.go b/jom/jom.go
index 442c53d..e98fd86 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -281,14 +281,11 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			if err != nil {
 				return err
 			}
-			// Here we are just passing the literal string into the vm and parsing it to a JS value using JSON.parse
+			// Here we are just running the literal string within the vm to get a JS value
 			// Then setting the currentNode variable to be that value
-			err = vm.Set(globals.CurrentNodeLiteralVarName, string(literal))
-			if err != nil {
-				return err
-			}
+			// NOTE: JSON.parse is not used here as it adds the keys of each object in a random order
 			var currentNodeValue otto.Value
-			currentNodeValue, err = vm.Run(fmt.Sprintf("JSON.parse(%s)", globals.CurrentNodeLiteralVarName))
+			currentNodeValue, err = vm.Run(fmt.Sprintf("(%s)", literal))
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ae3c88df4572a05d45d9d8dc3f4d84b705022330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 38/51] fix: loops with an empty body can be halted

---
 code/interruptible.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 code/js/js.go         |  5 ++++-
 jom/jom.go            |  2 +-
 3 files changed, 47 insertions(+), 2 deletions(-)
 create mode 100644 code/interruptible.go

diff --git a/code/interruptible.go b/code/interruptible.go
new file mode 100644
index 0000000..f942290
--- /dev/null
+++ b/code/interruptible.go
@@ -0,0 +1,42 @@
+package code
+
+import (
+	"github.com/robertkrimen/otto"
+	"github.com/robertkrimen/otto/ast"
+	"github.com/robertkrimen/otto/parser"
+)
+
+// Fills the empty bodies of loops with an empty statement.
+//
+// A VM can only be interrupted when it evaluates a statement, so a loop without any statements can never be halted.
+type loopFiller struct{}
+
+func (filler loopFiller) Enter(n ast.Node) ast.Visitor {
+	var body ast.Statement
+	switch loop := n.(type) {
+	case *ast.DoWhileStatement:
+		body = loop.Body
+	case *ast.ForInStatement:
+		body = loop.Body
+	case *ast.ForStatement:
+		body = loop.Body
+	case *ast.WhileStatement:
+		body = loop.Body
+	}
+	if block, ok := body.(*ast.BlockStatement); ok && len(block.List) == 0 {
+		block.List = []ast.Statement{&ast.EmptyStatement{Semicolon: block.LeftBrace}}
+	}
+	return filler
+}
+
+func (filler loopFiller) Exit(n ast.Node) {}
+
+// Runs the given JS source within the given VM such that every loop within the source can be interrupted.
+func RunInterruptible(vm *otto.Otto, source string) (otto.Value, error) {
+	program, err := parser.ParseFile(nil, "", source, 0)
+	if err != nil {
+		return otto.UndefinedValue(), err
+	}
+	ast.Walk(loopFiller{}, program)
+	return vm.Run(program)
+}
diff --git a/code/js/js.go b/code/js/js.go
index c41656f..cb12142 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -21,6 +21,9 @@ func init() {
 	code.RegisterLang("js", RunScript)
 }
 
+// Used within RunScript, whose code parameter shadows the code package.
+var runInterruptible = code.RunInterruptible
+
 // These can be set when testing to check output.
 var (
 	ExternalConsoleLogStdout io.Writer = os.Stdout
@@ -521,7 +524,7 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 		}
 	}()
 	// Run the script
-	_, err = vm.Run(script)
+	_, err = runInterruptible(vm, script)
 	if err != nil {
 		// Re-wrap the error as a ScriptError
 		return nil, globals.ScriptError.FillError(err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
diff --git a/jom/jom.go b/jom/jom.go
index e98fd86..8a1b3e4 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -337,7 +337,7 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			}()
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
-			expressionReturn, err = vm.Run(currentExpression)
+			expressionReturn, err = code.RunInterruptible(vm, currentExpression)
 		}()
 		if err != nil {
 			return err
-- 
2.43.0


From 409924780321599598153593c558376e4e724c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 39/51] fix: the error of a filter isn't replaced by errors of
 the keys after it

---
 jom/jom.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 8a1b3e4..7f2bbe8 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -441,6 +441,7 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 
 
 	// Iterate through the absolute path keys
+keys:
 	for _, key := range path {
 		// StartEnd KeyTypes must be within a Slice key type so throw an error if so
 		if key.KeyType == json_map.StartEnd {
@@ -491,7 +492,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				filterExp := []byte(key.Value.(string))
 				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
 				if err != nil {
-					break
+					// The error of the filter is returned, as whatever follows it cannot be evaluated
+					break keys
 				}
 			case json_map.First:
 				// Similar as with the wildcards we sort the keys alphabetically then set the value of the first, THAT
@@ -559,7 +561,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				filterExp := []byte(key.Value.(string))
 				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
 				if err != nil {
-					break
+					// The error of the filter is returned, as whatever follows it cannot be evaluated
+					break keys
 				}
 			case json_map.First:
 				err = globals.JsonPathError.FillError("Cannot recurse into an array")
-- 
2.43.0


From 9c4e531096ed46c14db66471f249654127f8e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 40/51] fix: characters escaped as surrogate pairs in JSON are
 kept

---
 jom/jom.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 7f2bbe8..2294759 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 )
 
 // Holds some info about the current traversal of the JOM.
@@ -1384,6 +1385,23 @@ func runArray(array []interface{}, scopePath string) {
 
 // Unmarshal a hjson byte string and package it as a JsonMap.
 func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
+	// JSON is decoded as JSON because the hjson decoder cannot decode characters which are escaped as surrogate pairs
+	if utf8.Valid(jsonBytes) {
+		var root interface{}
+		if json.Unmarshal(jsonBytes, &root) == nil {
+			switch root.(type) {
+			case map[string]interface{}:
+				jsonMap.insides = root.(map[string]interface{})
+				jsonMap.Array = false
+				return nil
+			case []interface{}:
+				jsonMap.insides = map[string]interface{}{"array": root}
+				jsonMap.Array = true
+				return nil
+			}
+		}
+	}
+
 	// Decode and a check for errors.
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
-- 
2.43.0


From fcb1a0b0ba417f552481af648bafeb73c4f1af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 41/51] fix: String keeps strings that the hjson encoder cannot
 express

---
 jom/jom.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 2294759..87db85b 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -5,6 +5,7 @@
 package jom
 
 import (
+	"bytes"
 	"container/heap"
 	"encoding/json"
 	"errors"
@@ -1620,18 +1621,31 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 }
 
 // Marshals the JsonMap into hjson and returns the stringified byte array.
+//
+// Strings that the hjson encoder cannot express, such as ones with carriage returns, would read differently. If there are
+// any then the JsonMap is written as indented JSON, which is hjson as well.
 func (jsonMap *JsonMap) String() string {
 	var err error
 	var out []byte
-	if !jsonMap.Array {
-		out, err = hjson.Marshal(jsonMap.insides)
-	} else {
+	var root interface{} = jsonMap.insides
+	if jsonMap.Array {
 		// FIXME: Handle the root array hack
-		out, err = hjson.Marshal(jsonMap.insides["array"])
+		root = jsonMap.insides["array"]
 	}
+	out, err = hjson.Marshal(root)
 	if err != nil {
 		panic(err)
 	}
+	var read interface{}
+	readErr := hjson.Unmarshal(out, &read)
+	if want, err := json.Marshal(root); err == nil {
+		if got, err := json.Marshal(read); readErr != nil || err != nil || !bytes.Equal(got, want) {
+			var indented bytes.Buffer
+			if err = json.Indent(&indented, want, "", "  "); err == nil {
+				out = indented.Bytes()
+			}
+		}
+	}
 	return string(out)
 }
 
-- 
2.43.0


From f6e80e62e8f8559d4aca22b10cd89e9009ba3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 42/51] fix: sets visit the keys of objects in the same order
 each time

---
 jom/jom.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 87db85b..a234db0 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -811,7 +811,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 
 						// Recurse into all the other keys within the map and set the new subtrees returned in the
 						// clone of the current subtree (newSubtreeM)
-						for subSubKey, subSubtree := range subM {
+						for _, subSubKey := range sortedKeys(subM) {
+							subSubtree := subM[subSubKey]
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
@@ -870,7 +871,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					panic(recursionError{fmt.Sprintf("Cannot access map %v with numerical key %v", currTree, key.Value)})
 				case json_map.Wildcard:
 					// We always iterate through a copy of the map as we might delete a key-value pair from the original map
-					for k := range currTree.(map[string]interface{}) {
+					for _, k := range sortedKeys(currTree.(map[string]interface{})) {
 						setterMap(&m, k)
 					}
 				case json_map.Filter:
-- 
2.43.0


From fd0b32fc154d8f2462afe3d9724272d054a646e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 43/51] fix: nested scopes are run in the same order each time

---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index a234db0..95d0cdf 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1229,7 +1229,8 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	jsonMap.traversal.script = make(map[string]interface{})
 	jsonMap.traversal.nonScript = make(map[string]interface{})
 
-	for key, element := range *(jsonMap.GetInsides()) {
+	for _, key := range sortedKeys(*(jsonMap.GetInsides())) {
+		element := (*jsonMap.GetInsides())[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse down the inner map
@@ -1347,7 +1348,8 @@ func (jsonMap *JsonMap) Run() {
 	}
 
 	// Iterate over each key within the new scope (or the same scope if no scripts were run)
-	for key, element := range (*jsonMap).insides {
+	for _, key := range sortedKeys((*jsonMap).insides) {
+		element := (*jsonMap).insides[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse when there is a nested object
-- 
2.43.0


From e35d47c0a10ee793490cbefa7b4a3c03f4f28330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 44/51] fix: a value that is part of the document changed while
 it was being set at several locations

---
 jom/jom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 95d0cdf..53173f4 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -725,6 +725,9 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 		Message string
 	}
 
+	// The value might be part of the map, in which case it mustn't follow the changes that are made along the way
+	value = deepCopy(value)
+
 	// The map that the JSON paths within filter expressions are evaluated in: the map before the current path is set
 	var filterRoot map[string]interface{}
 
-- 
2.43.0


From 1bd9531759f14206d1587ee2e03a975e8a0fe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 45/51] fix: Name the script and its scope in every error that
 a script ends with

---
 code/js/js.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index cb12142..558bc86 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -509,8 +509,11 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 				)
 				return
 			}
-			// Another error that we should panic for
-			panic(caught)
+			// Anything else is an error of the script, such as an overridden builtin or an exception without a string value
+			err = globals.ScriptError.FillError(
+				fmt.Sprint(caught),
+				fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script),
+			)
 		}
 	}()
 
@@ -533,7 +536,7 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	// De-JOM-ify the environment and return the json_map.JsonMapInt
 	data, err = deJomIfy(jsonMap, vm)
 	if err != nil {
-		return nil, err
+		return nil, globals.ScriptError.FillError(err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
 	}
 	return data, nil
 }
-- 
2.43.0


From 510a0abe468f8a50aa4b5029340996e71baa6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 46/51] fix: keep the scripts that are to be run when a
 callback looks for scripts in its scope

---
 jom/jom.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 53173f4..85de16f 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1313,9 +1313,11 @@ func (jsonMap *JsonMap) Run() {
 		_, _ = fmt.Fprint(jsonMap.traversal.scopePath, "$")
 	}
 
-	// Get all script keys at the current level
+	// Get all script keys at the current level. The scripts found above have to be kept as a script can look for script
+	// fields itself, such as a callback which calls Strip, which updates the traversal object
+	scripts := jsonMap.traversal.script
 	scriptQueue := make(str.StringHeap, 0)
-	for k, e := range jsonMap.traversal.script {
+	for k, e := range scripts {
 		switch e.(type) {
 		case code.Code:
 			scriptQueue = append(scriptQueue, k)
@@ -1332,7 +1334,7 @@ func (jsonMap *JsonMap) Run() {
 		scriptKey := heap.Pop(&scriptQueue).(string)
 
 		// Get the script language by CheckIfScript
-		script := jsonMap.traversal.script[scriptKey].(code.Code)
+		script := scripts[scriptKey].(code.Code)
 
 		// Run the script for the script's language. This will...
 		// 1. Create the JOM object, setup any builtin functions and insert the JOM into the script environment
-- 
2.43.0


From 1322f2af4597bed7399350b06bbbe2b98f57cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:43 +0000
Subject: [PATCH 47/51] fix: AddToAll changed other paths that were made from
 the same steps, such as the address of a queried node

---
 jom/json_map/absolute_paths.go.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/jom/json_map/absolute_paths.go.go b/jom/json_map/absolute_paths.go.go
index 1e52092..98e5b27 100644
--- a/jom/json_map/absolute_paths.go.go
+++ b/jom/json_map/absolute_paths.go.go
@@ -79,7 +79,8 @@ func (p *AbsolutePaths) AddToAll(jsonMap JsonMapInt, check bool, pathValues ...A
 		// {property1, 1, 0}
 		// {property1, 1, 1}
 		// {property1, 1, 2}
-		if len(pathValues) > 1 {
+		// NOTE all paths are cloned as other AbsolutePaths, or nodes, might have been made from the same slices
+		if len(pathValues) > 0 {
 			newAbsolutePaths := make(AbsolutePaths, 0)
 			for _, absolutePath := range *p {
 				for _, val := range pathValues {
@@ -94,11 +95,6 @@ func (p *AbsolutePaths) AddToAll(jsonMap JsonMapInt, check bool, pathValues ...A
 			}
 			// Set the current referer to equal the new paths
 			*p = newAbsolutePaths
-		} else if len(pathValues) == 1 {
-			// Do this to save memory as no new absolute paths are created therefore no paths need to be cloned
-			for i, absolutePath := range *p {
-				(*p)[i] = append(absolutePath, pathValues[0])
-			}
 		}
 	} else {
 		// Create the start of the absolute paths
-- 
2.43.0


From 2b9e881071d3fe4720239da2f1ba5cb8cb503043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 48/51] fix: MustPush and MustPop without indices overwrote the
 capacity of the slice of indices that they were given

---
 jom/jom.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 85de16f..dfa67ef 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1567,7 +1567,7 @@ func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices...
 
 	// If there are no indices given push to the back of the array
 	if len(indices) == 0 {
-		indices = append(indices, len(nodes))
+		indices = []int{len(nodes)}
 	}
 	// Use the AddElems utility to add the value at the given indices
 	newArr := slices.AddElems(nodes, value, indices...)
@@ -1597,7 +1597,7 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 
 	// If there are no indices given pop from the head of the array
 	if len(indices) == 0 {
-		indices = append(indices, 0)
+		indices = []int{0}
 	}
 
 	// We get the popped elements and the new array at the some time
-- 
2.43.0


From 41a2d60f0f19ad689ee6bba30d39872f04799f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:13 +0000
Subject: [PATCH 49/51] fix: Scripts in a language that was registered with
 RegisterLang, other than js and go, were run as JavaScript

---
 code/code.go | 24 ++++++++++++++++--------
 code/run.go  |  4 ++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/code/code.go b/code/code.go
index 3e70371..cb5d2af 100644
--- a/code/code.go
+++ b/code/code.go
@@ -39,20 +39,28 @@ func (code *Code) String() string {
 	return fmt.Sprintf(globals.ScriptErrorFormatString, code.ScriptLangShebang(), fmt.Sprintf("%v", code.Script))
 }
 
+// The shebang suffix of each ScriptLangType. Other languages that are registered with RegisterLang are added to the end.
+var scriptLangShebangs = []string{
+	JS: "js",
+	GO: "go",
+}
+
 // Gets all the shebang suffixes for the given ScriptLangType.
 func (code *Code) ScriptLangShebang() string {
-	return map[ScriptLangType]string{
-		JS: "js",
-		GO: "go",
-	}[code.ScriptLang]
+	if code.ScriptLang < 0 || int(code.ScriptLang) >= len(scriptLangShebangs) {
+		return ""
+	}
+	return scriptLangShebangs[code.ScriptLang]
 }
 
 // Gets the ScriptLangType of the given shebang suffix.
 func ShebangScriptLang(shebang string) ScriptLangType {
-	return map[string]ScriptLangType{
-		"js": JS,
-		"go": GO,
-	}[shebang]
+	for scriptLang, scriptLangShebang := range scriptLangShebangs {
+		if scriptLangShebang == shebang {
+			return ScriptLangType(scriptLang)
+		}
+	}
+	return JS
 }
 
 // Creates a new Code object from the given string source code (must include shebang) or a func(json json_map.JsonMapInt).
diff --git a/code/run.go b/code/run.go
index c13c39d..278a17a 100644
--- a/code/run.go
+++ b/code/run.go
@@ -28,6 +28,10 @@ func CheckIfSupported(scriptLang string) bool {
 // Registers a new SupportedLang to the supportedLangs map.
 // Every supported language package should call this within their init().
 func RegisterLang(shebangName string, runCode func(code Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error)) bool {
+	// A language which isn't known yet needs a ScriptLangType of its own so that its scripts aren't run as another language's
+	if scriptLang := ShebangScriptLang(shebangName); scriptLangShebangs[scriptLang] != shebangName {
+		scriptLangShebangs = append(scriptLangShebangs, shebangName)
+	}
 	supportedLangs[shebangName] = &SupportedLang{
 		shebangName: shebangName,
 		runCode:     runCode,
-- 
2.43.0


From 8e3ca2dc60cf16b0376ed404070240c0681c523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:34 +0000
Subject: [PATCH 50/51] fix: An exception thrown by a getter of a printed
 object could not be caught by the script

---
 code/js/js.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 558bc86..508b930 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -12,6 +12,7 @@ import (
 	"github.com/robertkrimen/otto"
 	"io"
 	"os"
+	"runtime"
 	"strings"
 	"time"
 )
@@ -113,6 +114,31 @@ func toGo(value otto.Value) (out interface{}) {
 	return out
 }
 
+// Converts the given argument of a print call to Go.
+//
+// An exception that is thrown by one of the argument's getters is thrown by the call, so that the script can catch it.
+func printable(vm *otto.Otto, arg otto.Value) interface{} {
+	defer func() {
+		switch caught := recover().(type) {
+		case nil:
+		case *otto.Error:
+			name, message := caught.Error(), ""
+			if i := strings.Index(name, ": "); i >= 0 {
+				name, message = name[:i], name[i+len(": "):]
+			}
+			panic(vm.MakeCustomError(name, message))
+		case runtime.Error:
+			panic(caught)
+		case error:
+			thrown, _ := otto.ToValue(caught.Error())
+			panic(thrown)
+		default:
+			panic(caught)
+		}
+	}()
+	return toGo(arg)
+}
+
 // Composes a string to print from the given otto.FunctionCall.
 func composePrint(call otto.FunctionCall) *strings.Builder {
 	// Print the caller location
@@ -133,7 +159,7 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 	argList := call.ArgumentList
 
 	for i, arg := range argList {
-		val := toGo(arg)
+		val := printable(call.Otto, arg)
 		if val == nil {
 			_, _ = fmt.Fprint(&b, "undefined")
 		} else {
-- 
2.43.0


From ba2e04bffd4bd737a63d00ea67c13da092b052a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:55 +0000
Subject: [PATCH 51/51] fix: Printing an object that is as good as endless, or
 deeply nested, was not interrupted at the time limit

---
 code/js/js.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 508b930..7f3cfa2 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -34,9 +34,17 @@ var (
 // Used to map a JS Object from Otto into a map so that it can be used.
 //
 // The ancestors are the objects that the given object is contained in. They are used to stop at circular references.
-func traverseObject(object *otto.Object, ancestors ...otto.Value) *map[string]interface{} {
+func traverseObject(vm *otto.Otto, object *otto.Object, ancestors map[otto.Value]bool) *map[string]interface{} {
+	// An object can be as good as endless, for instance if it holds another one twice which does so as well and so on
+	select {
+	case interrupt := <-vm.Interrupt:
+		interrupt()
+	default:
+	}
+
 	objectMap := make(map[string]interface{})
-	ancestors = append(ancestors[:len(ancestors):len(ancestors)], object.Value())
+	ancestors[object.Value()] = true
+	defer delete(ancestors, object.Value())
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
@@ -62,18 +70,11 @@ func traverseObject(object *otto.Object, ancestors ...otto.Value) *map[string]in
 			boolean, _ := val.ToBoolean()
 			realVal = boolean
 		} else if val.IsObject() {
-			circular := false
-			for _, ancestor := range ancestors {
-				if ancestor == val {
-					circular = true
-					break
-				}
-			}
-			if circular {
+			if ancestors[val] {
 				realVal = "[Circular]"
 			} else {
 				obj := val.Object()
-				objectMapInner := traverseObject(obj, ancestors...)
+				objectMapInner := traverseObject(vm, obj, ancestors)
 				realVal = *objectMapInner
 			}
 		}
@@ -82,7 +83,7 @@ func traverseObject(object *otto.Object, ancestors ...otto.Value) *map[string]in
 	return &objectMap
 }
 
-func toGo(value otto.Value) (out interface{}) {
+func toGo(vm *otto.Otto, value otto.Value) (out interface{}) {
 	var err error
 	if value.IsDefined() {
 		switch true {
@@ -100,7 +101,7 @@ func toGo(value otto.Value) (out interface{}) {
 			}
 		case value.IsObject():
 			obj := value.Object()
-			out = traverseObject(obj)
+			out = traverseObject(vm, obj, make(map[otto.Value]bool))
 		case value.IsNull():
 			out = nil
 		case value.IsFunction():
@@ -136,7 +137,7 @@ func printable(vm *otto.Otto, arg otto.Value) interface{} {
 			panic(caught)
 		}
 	}()
-	return toGo(arg)
+	return toGo(vm, arg)
 }
 
 // Composes a string to print from the given otto.FunctionCall.
-- 
2.43.0

