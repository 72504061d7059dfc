From a0e57c23376d5b67450f0b8a4df02832b14f3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 01/72] fix: Send the request body again when repeating a
 request after HTTP 429

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..69d69c1 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			// The body has been consumed by the previous attempt, so each repetition needs a fresh one.
+			if request.GetBody != nil {
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to repeat %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From baeb386400732cacb5803f2831f48bfe2112f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 02/72] fix: Close the bodies of HTTP responses that are not
 used

---
 src/http/http.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 69d69c1..3781095 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -143,6 +143,8 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 		sigolo.Tracef("Response: %#v", response)
 
 		if response.StatusCode == http.StatusTooManyRequests {
+			closeBody(response)
+
 			// 429 (too many requests): wait a bit and retry
 			var waitTime int
 			waitTime, err = strconv.Atoi(response.Header.Get(HeaderRetryAfter))
@@ -162,11 +164,13 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
+			closeBody(response)
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
 		}
 
 		responseErrorHeader := response.Header.Get(HeaderMediawikiApiError)
 		if responseErrorHeader != "" {
+			closeBody(response)
 			return nil, errors.Errorf("%s request to url %s failed with error header '%s' value '%s'", request.Method, url, HeaderMediawikiApiError, responseErrorHeader)
 		}
 		break
@@ -174,3 +178,10 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 
 	return response, nil
 }
+
+// closeBody releases the connection of a response whose body is not used.
+func closeBody(response *http.Response) {
+	if response.Body != nil {
+		response.Body.Close()
+	}
+}
-- 
2.43.0


From b5dd9e3eee9e716cef3e9fa84bb32bee57939554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 03/72] fix: Close the output file after checking its path

---
 src/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.go b/src/main.go
index 1b2010f..e08dcd3 100644
--- a/src/main.go
+++ b/src/main.go
@@ -521,6 +521,10 @@ func ensurePathsAndClearTempDir(outputFile string) string {
 	fileInfo, err := file.Stat()
 	sigolo.FatalCheck(err)
 
+	// The file was only needed to make sure that the path is usable.
+	err = file.Close()
+	sigolo.FatalCheck(err)
+
 	if fileInfo.IsDir() {
 		switch config.Current.OutputType {
 		case config.OutputTypeEpub2:
-- 
2.43.0


From 03f73e9fa6046cc2ccd4dd9d6ac93ffeedb057f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 04/72] fix: Articles that appear more than once made the book
 generation fail

---
 src/main.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index e08dcd3..f5cf212 100644
--- a/src/main.go
+++ b/src/main.go
@@ -342,7 +342,8 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	// The workers get the indices of the articles, since the same article might appear multiple times in a book
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -364,16 +365,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -384,9 +379,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From 43c18fe409a76b1dc67aa82be69673aa73ad0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 05/72] fix: Do not evict files when the new file exactly fits
 into the cache

---
 src/cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..acafed9 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -148,7 +148,7 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 	}
 
 	sigolo.Debugf("Max cache size: %f MB; current size: %f MB; new file size: %f MB; existing file size: %f MB (NaN means there's no existing file); net cache size change: %f MB", util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(newFileSizeInBytes), util.ToMB(existingFileSizeInBytes), util.ToMB(netCacheSizeChangeInBytes))
-	for config.Current.CacheMaxSize <= cacheSizeInBytes+netCacheSizeChangeInBytes {
+	for config.Current.CacheMaxSize < cacheSizeInBytes+netCacheSizeChangeInBytes {
 		sigolo.Debugf("New file (%s ; %f MB) would exceed max cache size: Max cache size of %f MB < current size of %f MB + net size change of %f MB = new size of %f MB. Remove largest files until cache is small enough.", newFileName, util.ToMB(newFileSizeInBytes), util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(netCacheSizeChangeInBytes), util.ToMB(cacheSizeInBytes+netCacheSizeChangeInBytes))
 
 		if config.Current.CacheEvictionStrategy == config.CacheEvictionStrategyLargest {
-- 
2.43.0


From 51eccdc09273c329539fc12b354664ad754462aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 06/72] fix: Do not count temporary files when determining the
 cache size

---
 src/cache/cache.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index acafed9..6e62bfc 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -102,6 +102,15 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 			return outputFilepath, errors.Wrap(err, fmt.Sprintf("Unable to determine size of cache folder '%s'", config.Current.CacheDir))
 		}
 
+		// The folder for temporary files is within the cache folder. These files don't count, especially not the new
+		// file itself, because its size will be added below.
+		var tempDirSizeInBytes int64
+		err, tempDirSizeInBytes = util.CurrentFilesystem.DirSizeInBytes(GetTempPath())
+		if err != nil {
+			return outputFilepath, errors.Wrap(err, fmt.Sprintf("Unable to determine size of temporary folder '%s'", GetTempPath()))
+		}
+		cacheSizeInBytes -= tempDirSizeInBytes
+
 		var tempFileStat os.FileInfo
 		tempFileStat, err = tempFile.Stat()
 		if err != nil {
-- 
2.43.0


From a3d0b24652dcec6bb8e0d189f534b9caf54a18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 07/72] fix: Cache exceeded its limit when the file to be
 replaced was evicted

---
 src/cache/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 6e62bfc..e55f7e9 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -170,6 +170,12 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		if err != nil {
 			return err
 		}
+
+		// The older state of the new file might have been deleted as well
+		_, err = util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+		if os.IsNotExist(err) {
+			netCacheSizeChangeInBytes = newFileSizeInBytes
+		}
 	}
 
 	return nil
-- 
2.43.0


From 8ca987a7d0b450717ec3895d9352e27ed0ec7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 08/72] fix: Crash and pointless evictions when a file is
 larger than the cache

---
 src/cache/cache.go | 12 ++++++++++++
 src/util/files.go  |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index e55f7e9..3c04c13 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -147,6 +147,10 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 // deleteFilesFromCacheIfNeeded deletes files from the cache based on the configured cache eviction strategy. When the
 // cache is small enough for the new file, no (further) files will be deleted.
 func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, newFileSizeInBytes int64, cacheSizeInBytes int64) error {
+	if newFileSizeInBytes > config.Current.CacheMaxSize {
+		return errors.Errorf("File '%s' (%f MB) is larger than the maximum cache size of %f MB", newFileName, util.ToMB(newFileSizeInBytes), util.ToMB(config.Current.CacheMaxSize))
+	}
+
 	// The new file might already exist in an older state (and thus with different size). The file will, therefore, not
 	// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
 	// might even shrink (in case the new file is smaller than the old one).
@@ -190,6 +194,10 @@ func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine largest file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
 
+	if largestFilePath == "" {
+		return errors.Errorf("No file found in cache '%s' that can be removed", config.Current.CacheDir), cacheSizeInBytes
+	}
+
 	sigolo.Debugf("Delete largest file from cache: '%s' (%f MB)", largestFilePath, util.ToMB(largestFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(largestFilePath)
 	if err != nil {
@@ -208,6 +216,10 @@ func deleteLruFileFromCache(cacheSizeInBytes int64) (error, int64) {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
 
+	if lruFilePath == "" {
+		return errors.Errorf("No file found in cache '%s' that can be removed", config.Current.CacheDir), cacheSizeInBytes
+	}
+
 	sigolo.Debugf("Delete least recently used file from cache: '%s' (%f MB)", lruFilePath, util.ToMB(lruFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(lruFilePath)
 	if err != nil {
diff --git a/src/util/files.go b/src/util/files.go
index d676673..44ea1a4 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -358,6 +358,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From b704122f541d03e73f5b30a96ba84450bcf7ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 09/72] fix: Endless loop when text contains something looking
 like a template placeholder

---
 src/parser/template.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..b067ef3 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -25,28 +25,29 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	// of request URLs significantly and prevents errors due to too long URLs.
 	placeholderToContent := map[string]string{}
 
+	// The keys of the map in the order of evaluation.
+	var placeholderKeys []string
+
 	sigolo.Debug("Start evaluating templates and replacing them by placeholders")
-	content, err := t.replaceTemplateByPlaceholders(content, placeholderToContent)
+	content, err := t.replaceTemplateByPlaceholders(content, placeholderToContent, &placeholderKeys)
 	if err != nil {
 		return "", err
 	}
 	sigolo.Debug("Finished finding and evaluating templates")
 
-	// Replace all template placeholders with the actual content until no placeholders are unresolved. This is not very
-	// elegant or fast but due to the nesting a simple and working approach.
+	// Replace all template placeholders with the actual content. Inner templates are always evaluated before the outer
+	// ones using them. So, when going backwards, each placeholder has to be replaced only once. Anything that looks like
+	// a placeholder afterwards belongs to the actual text.
 	sigolo.Debugf("Replace %d template placeholder with evaluated content", len(placeholderToContent))
-	for strings.Contains(content, templatePlaceholderPrefix) {
-		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
-
-		for key, template := range placeholderToContent {
-			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
-			containsPlaceholder := strings.Contains(content, placeholder)
-			sigolo.Tracef("Check template placeholder %s -> content contains placeholder? %v", key, containsPlaceholder)
-
-			if containsPlaceholder {
-				content = strings.ReplaceAll(content, placeholder, template)
-				sigolo.Tracef("Replaced template placeholder %s in content", key)
-			}
+	for i := len(placeholderKeys) - 1; i >= 0; i-- {
+		key := placeholderKeys[i]
+		placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
+		containsPlaceholder := strings.Contains(content, placeholder)
+		sigolo.Tracef("Check template placeholder %s -> content contains placeholder? %v", key, containsPlaceholder)
+
+		if containsPlaceholder {
+			content = strings.ReplaceAll(content, placeholder, placeholderToContent[key])
+			sigolo.Tracef("Replaced template placeholder %s in content", key)
 		}
 	}
 	sigolo.Debug("Finished replacing template placeholders. Template handling done.")
@@ -54,7 +55,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	return content, nil
 }
 
-func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToContent map[string]string) (string, error) {
+func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToContent map[string]string, placeholderKeys *[]string) (string, error) {
 	sigolo.Tracef("Replace template tokens in content '%s'", util.TruncString(content))
 	for i := 0; i < len(content)-templateEndTokenLen; i++ {
 		cursor := content[i : i+templateStartTokenLen]
@@ -73,7 +74,7 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 				// If the template itself contains a template, then proceed to first evaluate the inner template and
 				// to evaluate the outer template in a later run
 				sigolo.Trace("Template contains templates, inner templates are replaced first")
-				newContent, err := t.replaceTemplateByPlaceholders(templateText[templateStartTokenLen:], placeholderToContent)
+				newContent, err := t.replaceTemplateByPlaceholders(templateText[templateStartTokenLen:], placeholderToContent, placeholderKeys)
 				if err != nil {
 					return "", err
 				}
@@ -90,6 +91,9 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 
 			// Replace the template by a placeholder. We do not directly replace the wikitext of the template with the
 			// evaluated form because nested templates might lead to too long URLs.
+			if _, alreadyEvaluated := placeholderToContent[key]; !alreadyEvaluated {
+				*placeholderKeys = append(*placeholderKeys, key)
+			}
 			placeholderToContent[key] = evaluatedTemplate
 			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
 			content = strings.Replace(content, originalTemplateText, placeholder, 1)
-- 
2.43.0


From e9b18930a1c1b565a2bc2bbb053f40b1f08c3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 10/72] fix: Content of statistics files depended on the random
 order of maps

---
 src/generator/stats.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..b6be249 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -262,6 +262,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		Top10UncoveredInternalLinks: map[string]int{},
 	}
 	articles := map[string]*articleStats{}
+	var articleNames []string // Each name once, in the order of the book
 
 	for _, statFile := range statFiles {
 		var fileContent []byte
@@ -279,6 +280,9 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 			return errors.Wrapf(err, "Error parsing JSON from stats file '%s'", statFile)
 		}
 
+		if _, ok := articles[stats.ArticleName]; !ok {
+			articleNames = append(articleNames, stats.ArticleName)
+		}
 		articles[stats.ArticleName] = stats
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
@@ -304,7 +308,10 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		return cmp.Or(
+			cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]),
+			cmp.Compare(a, b),
+		)
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -320,7 +327,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	if config.Current.OutputType == config.OutputTypeStatsJson {
 		outputConent, err = generateJsonStatsContent(combinedStats)
 	} else if config.Current.OutputType == config.OutputTypeStatsTxt {
-		outputConent, err = generateTxtStatsContent(articles, combinedStats)
+		outputConent, err = generateTxtStatsContent(articleNames, combinedStats)
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
@@ -351,7 +358,7 @@ func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	return outputConent, nil
 }
 
-func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *articleStats) ([]byte, error) {
+func generateTxtStatsContent(articleNames []string, combinedStats *articleStats) ([]byte, error) {
 	result := "Statistics generated with wiki2book:\n\n"
 
 	result += "General:\n"
@@ -361,8 +368,8 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -378,7 +385,10 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
-		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		if sortedUncoveredLinks[i].occurrences != sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		}
+		return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
 	})
 
 	for i := 0; i < int(math.Min(float64(len(sortedUncoveredLinks)), 20)); i++ {
-- 
2.43.0


From 53f3be4f3b60301e3fa98cd9dba953bb06ca6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 11/72] fix: Cached images contained partial content when their
 processing failed or was interrupted

---
 src/image/image.go | 39 +++++++++++++++++++++++++++++++++------
 src/image/svg.go   |  4 +++-
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..421534e 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -1,7 +1,10 @@
 package image
 
 import (
+	"os"
+	"path/filepath"
 	"strings"
+	"wiki2book/cache"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -24,19 +27,43 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
+	err := replaceFile(imageFilepath, func(outputFilepath string) error {
+		commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
+		commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, outputFilepath)
 
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+		return util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	})
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
+	err := replaceFile(pngFile, func(outputFilepath string) error {
+		commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
+		commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, outputFilepath)
 
-	err := util.ExecuteCommandWithArgs(commandString, ".")
+		return util.ExecuteCommandWithArgs(commandString, ".")
+	})
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
+
+// replaceFile calls the given function with the path to a temporary file, which the function has to write, and moves
+// this file to the given path afterwards. The file name stays the same. The given file therefore never contains partial
+// content in case the function fails or the application exits in the meantime.
+func replaceFile(path string, write func(outputFilepath string) error) error {
+	tempDir, err := os.MkdirTemp(cache.GetTempPath(), "")
+	if err != nil {
+		return errors.Wrapf(err, "Unable to create temporary folder for file '%s'", path)
+	}
+	defer os.RemoveAll(tempDir)
+
+	tempFilepath := filepath.Join(tempDir, filepath.Base(path))
+	err = write(tempFilepath)
+	if err != nil {
+		return err
+	}
+
+	err = os.Rename(tempFilepath, path)
+	return errors.Wrapf(err, "Unable to move temporary file to '%s'", path)
+}
diff --git a/src/image/svg.go b/src/image/svg.go
index 0ce51e6..6dc336c 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -67,7 +67,9 @@ func MakeSvgSizeAbsolute(filename string) error {
 		return err
 	}
 
-	err = os.WriteFile(filename, []byte(updatedSvgContent), 0644)
+	err = replaceFile(filename, func(outputFilepath string) error {
+		return os.WriteFile(outputFilepath, []byte(updatedSvgContent), 0644)
+	})
 	if err != nil {
 		return errors.Wrap(err, "Error writing SVG file "+filename)
 	}
-- 
2.43.0


From 1b4323c5ece83e1eb2d858c76960878b0de032e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 12/72] fix: Convert images again that have been downloaded
 anew

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..23fb985 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -165,7 +165,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if commandTemplate != "" {
 		outputPngFilepath := util.GetPngPathForFile(outputFilepath)
 		pngAlreadyExists := util.PathExists(outputPngFilepath)
-		if !pngAlreadyExists {
+		if !pngAlreadyExists || freshlyDownloaded {
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
 				return err
-- 
2.43.0


From fc0398a5051fcdf92ba6f9be02c70975f31abae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 13/72] fix: Unprocessed image was used after its processing
 failed in an earlier run

---
 src/wikipedia/wikipedia.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 23fb985..3880ced 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -183,6 +184,11 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if freshlyDownloaded && config.Current.CommandTemplateImageProcessing != "" && fileFormatCanBeScaled {
 		err := w.imageProcessingService.ResizeAndCompressImage(outputFilepath, config.Current.CommandTemplateImageProcessing)
 		if err != nil {
+			// Do not keep the unprocessed image. It would otherwise be considered as already processed next time.
+			removeErr := util.CurrentFilesystem.Remove(outputFilepath)
+			if removeErr != nil && !os.IsNotExist(removeErr) {
+				sigolo.Errorf("Unable to remove unprocessed image '%s': %s", outputFilepath, removeErr.Error())
+			}
 			return err
 		}
 	}
-- 
2.43.0


From c2bb4a2b1cdf40983f5cf252a9a3b37499d00e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 14/72] fix: Image of several articles was downloaded and
 processed more than once at the same time

---
 src/wikipedia/wikipedia.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 3880ced..066b150 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"sync"
 	"wiki2book/cache"
 	"wiki2book/config"
 	ownHttp "wiki2book/http"
@@ -61,6 +62,7 @@ type DefaultWikipediaService struct {
 	wikipediaMathRestApi       string
 	imageProcessingService     image.ImageProcessingService
 	httpService                ownHttp.HttpService
+	imageMutexes               sync.Map // One mutex per image, see DefaultWikipediaService.lockImage.
 }
 
 func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikipediaImageInstances []string, wikipediaImageHost string, wikipediaMathRestApi string, imageProcessingService image.ImageProcessingService, httpClient ownHttp.HttpService) *DefaultWikipediaService {
@@ -123,6 +125,9 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
 	var downloadErr error
 
+	unlockImage := w.lockImage(image)
+	defer unlockImage()
+
 	for i, articleHost := range w.wikipediaImageArticleHosts {
 		var outputFilepath string
 		var freshlyDownloaded bool
@@ -151,6 +156,16 @@ func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) err
 	return downloadErr
 }
 
+// lockImage ensures that each image is downloaded and processed by only one goroutine at a time, because the same image
+// might be used by several articles. The returned function must be called to unlock the image.
+func (w *DefaultWikipediaService) lockImage(image string) func() {
+	// Ignore the prefix, because the same image might be used with different prefixes (e.g. "File:" and "Datei:").
+	_, imageName, _ := strings.Cut(strings.ReplaceAll(image, " ", "_"), ":")
+	mutex, _ := w.imageMutexes.LoadOrStore(imageName, &sync.Mutex{})
+	mutex.(*sync.Mutex).Lock()
+	return mutex.(*sync.Mutex).Unlock
+}
+
 func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshlyDownloaded bool) error {
 	outputFileExt := filepath.Ext(strings.ToLower(outputFilepath))
 
-- 
2.43.0


From 37bb5d1d01208691567d7017a3ffecac98a24bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 15/72] fix: Page of an image was taken from a host on which
 the image is not available

---
 src/wikipedia/wikipedia.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 066b150..b795879 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -253,6 +253,13 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 
 	cachedFilePath, freshlyDownloaded, err := w.httpService.DownloadAndCache(imageUrl, cache.ImageCacheDirName, originalImageName)
 	if err != nil {
+		// The cached article of the image is used for all hosts. Remove it, because the image of this host is not
+		// available and the next host has to be asked for its own article.
+		imageArticleFilepath := cache.GetFilePathInCache(cache.ArticleCacheDirName, strings.ReplaceAll(imageName, " ", "_")+".json")
+		removeErr := util.CurrentFilesystem.Remove(imageArticleFilepath)
+		if removeErr != nil && !os.IsNotExist(removeErr) {
+			sigolo.Warnf("Unable to remove article file '%s' of image '%s': %s", imageArticleFilepath, imageName, removeErr.Error())
+		}
 		return "", freshlyDownloaded, err
 	}
 
-- 
2.43.0


From dedac5fa14831449d827b9bf2489d949959b37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 16/72] fix: Books made by the internal EPUB driver contained
 no images

---
 src/generator/epub.go | 56 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 36fae3a..119f999 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -2,9 +2,12 @@ package generator
 
 import (
 	"fmt"
+	"net/url"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
+	"strings"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -13,6 +16,10 @@ import (
 	"github.com/pkg/errors"
 )
 
+var (
+	imageSourceRegex = regexp.MustCompile(`<img [^>]*?src="(\./[^"]*)"`)
+)
+
 func GenerateEpub(articleFiles []string, outputFile string, metadata config.Metadata) error {
 	var err error
 
@@ -97,6 +104,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
 	var fileBytes []byte
+	internalImagePaths := map[string]string{}
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
 		fileBytes, err = os.ReadFile(sourceFile)
@@ -108,12 +116,16 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
 
+		fileContent, err = addImagesToEpub(epubObj, fileContent, internalImagePaths)
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding images of source file '%s' to the EPUB object", sourceFile))
+		}
+
 		// TODO Find a way to add subsections to TOC as well
 		_, err = epubObj.AddSection(fileContent, sectionTitle, "", "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
-		epubObj.EmbedImages()
 	}
 
 	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
@@ -121,16 +133,6 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
 	}
 
-	//for _, image := range images {
-	//	image = strings.Split(image, ":")[1] // Remove whatever prefix (e.g. "File:" or "Datei:") this image has
-	//	imageFilepath := filepath.Join(imageCache, image)
-	//	sigolo.Debugf("Add image file %s to EPUB object", imageFilepath)
-	//	_, err = epubObj.AddImage(imageFilepath, imageFilepath)
-	//	if err != nil {
-	//		return errors.Wrap(err, fmt.Sprintf("Error adding image file %s to EPUB object", image))
-	//	}
-	//}
-
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
@@ -147,3 +149,35 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 	return nil
 }
+
+// addImagesToEpub adds all images of the given HTML to the EPUB object and returns the HTML with adjusted image paths. The
+// map contains the EPUB-internal paths of all images that have already been added and will be extended.
+func addImagesToEpub(epubObj *epub.Epub, html string, internalImagePaths map[string]string) (string, error) {
+	var err error
+
+	html = imageSourceRegex.ReplaceAllStringFunc(html, func(match string) string {
+		imageSource := imageSourceRegex.FindStringSubmatch(match)[1]
+		internalImagePath, imageAlreadyAdded := internalImagePaths[imageSource]
+		if !imageAlreadyAdded && err == nil {
+			internalImagePath, err = addImageToEpub(epubObj, imageSource, len(internalImagePaths)+1)
+			internalImagePaths[imageSource] = internalImagePath
+		}
+		return strings.Replace(match, `src="`+imageSource+`"`, `src="`+internalImagePath+`"`, 1)
+	})
+
+	return html, err
+}
+
+func addImageToEpub(epubObj *epub.Epub, imageSource string, imageNumber int) (string, error) {
+	// The HTML contains the escaped path of the image relative to the cache folder.
+	imagePath, err := url.PathUnescape(imageSource)
+	if err != nil {
+		return "", errors.Wrapf(err, "Error unescaping path of image '%s'", imageSource)
+	}
+	imagePath = filepath.Join(config.Current.CacheDir, imagePath)
+
+	sigolo.Debugf("Add image file %s to EPUB object", imagePath)
+	internalFilename := fmt.Sprintf("image%04d%s", imageNumber, strings.ToLower(filepath.Ext(imagePath)))
+	internalImagePath, err := epubObj.AddImage(imagePath, internalFilename)
+	return internalImagePath, errors.Wrapf(err, "Error adding image '%s' to EPUB object", imagePath)
+}
-- 
2.43.0


From 2bed29dd53d30583fde29e89986ad96122ed239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 17/72] fix: Incomplete book was considered successful when
 temporary files could not be written

---
 src/generator/epub.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 119f999..8813adc 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"bytes"
 	"fmt"
 	"net/url"
 	"os"
@@ -83,6 +84,12 @@ func GenerateEpubWithPandoc(sourceFiles []string, outputFile string, metadata co
 
 func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata config.Metadata) error {
 
+	// The library ignores errors when writing its temporary files, so don't let it use any.
+	err := epub.Use(epub.MemoryFS)
+	if err != nil {
+		return errors.Wrap(err, "Error configuring the EPUB library")
+	}
+
 	epubObj, err := epub.NewEpub("My title")
 	if err != nil {
 		return errors.Wrap(err, "Error generating new EPUB object")
@@ -142,7 +149,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
-	err = epubObj.Write(outputFile)
+	var epubBuffer bytes.Buffer
+	_, err = epubObj.WriteTo(&epubBuffer)
+	if err == nil {
+		err = os.WriteFile(outputFile, epubBuffer.Bytes(), 0644)
+	}
 	if err != nil {
 		return errors.Wrap(err, fmt.Sprintf("Error generating EPUB file %s", outputFile))
 	}
-- 
2.43.0


From b0c03b50c8214b7d6a8a4cb53ac226802994b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 18/72] fix: Errors when writing SVG files with absolute size
 were ignored

---
 src/image/svg.go           |  8 +++-----
 src/wikipedia/wikipedia.go | 17 +++++++++++------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 6dc336c..555af96 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -41,7 +41,7 @@ func ReadSimpleAvgAttributes(filename string) (*SimpleSvgAttributes, error) {
 
 // MakeSvgSizeAbsolute turns relative width and height attributes of the given SVG file into absolute values based on
 // the "viewBox" attribute. Only if both attributes (width and height) are already absolute values, nothing will be
-// changed.
+// changed. SVG files that cannot be parsed stay unchanged as well.
 func MakeSvgSizeAbsolute(filename string) error {
 	sigolo.Debugf("Make SVG size absolute for image file '%s'", filename)
 
@@ -52,7 +52,8 @@ func MakeSvgSizeAbsolute(filename string) error {
 
 	attributes, err := parseSimpleSvgAttributes(fileBytes, filename)
 	if err != nil {
-		return err
+		sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", filename, err)
+		return nil
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
@@ -63,9 +64,6 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 
 	updatedSvgContent := replaceRelativeSizeByViewboxSize(string(fileBytes), filename, attributes)
-	if err != nil {
-		return err
-	}
 
 	err = replaceFile(filename, func(outputFilepath string) error {
 		return os.WriteFile(outputFilepath, []byte(updatedSvgContent), 0644)
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index b795879..c2b88f2 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -199,11 +199,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if freshlyDownloaded && config.Current.CommandTemplateImageProcessing != "" && fileFormatCanBeScaled {
 		err := w.imageProcessingService.ResizeAndCompressImage(outputFilepath, config.Current.CommandTemplateImageProcessing)
 		if err != nil {
-			// Do not keep the unprocessed image. It would otherwise be considered as already processed next time.
-			removeErr := util.CurrentFilesystem.Remove(outputFilepath)
-			if removeErr != nil && !os.IsNotExist(removeErr) {
-				sigolo.Errorf("Unable to remove unprocessed image '%s': %s", outputFilepath, removeErr.Error())
-			}
+			removeUnfinishedImage(outputFilepath)
 			return err
 		}
 	}
@@ -211,6 +207,14 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	return nil
 }
 
+// removeUnfinishedImage removes an image whose processing failed. It would otherwise be considered as finished next time.
+func removeUnfinishedImage(filepath string) {
+	err := util.CurrentFilesystem.Remove(filepath)
+	if err != nil && !os.IsNotExist(err) {
+		sigolo.Errorf("Unable to remove unfinished image '%s': %s", filepath, err.Error())
+	}
+}
+
 // downloadImage downloads the given image (e.g. "File:foo.jpg") to the given folder and returns the filepath as first
 // return value. When the file already exists, then the second value is false, otherwise true (for fresh downloads or
 // in case of errors). Whenever an error is returned, the article cache folder is needed as some files might be
@@ -266,7 +270,8 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(cachedFilePath) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
-			sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", cachedFilePath, err)
+			removeUnfinishedImage(cachedFilePath)
+			return "", freshlyDownloaded, errors.Wrapf(err, "Unable to make size of SVG '%s' absolute", cachedFilePath)
 		}
 	}
 
-- 
2.43.0


From e8c1265bf67bca3807fd033e358406480d662b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 19/72] fix: Files were removed from the cache while another
 thread determined the cache size

---
 src/cache/cache.go         | 12 ++++++++++++
 src/wikipedia/wikipedia.go |  9 ++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 3c04c13..e86d9ef 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -268,6 +268,18 @@ func GetFile(cacheFolderName string, filename string) (string, bool, error) {
 	return filePath, !fileIsOutdated, nil
 }
 
+// RemoveFile removes the file with the given path from the cache. It's not an error when the file does not exist.
+func RemoveFile(path string) error {
+	cacheWriteMutex.Lock()
+	defer cacheWriteMutex.Unlock()
+
+	err := util.CurrentFilesystem.Remove(path)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	return errors.Wrapf(err, "Unable to remove file '%s' from cache", path)
+}
+
 // isOutdated returns whether the file is outdated and if the file even exists. When an error is returned, both boolean
 // values have no defined meaning. When the second boolean (whether the file exists) is "false", the other values
 // have no defined meaning.
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index c2b88f2..f2aeb9b 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"net/http"
 	"net/url"
-	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -209,8 +208,8 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 
 // removeUnfinishedImage removes an image whose processing failed. It would otherwise be considered as finished next time.
 func removeUnfinishedImage(filepath string) {
-	err := util.CurrentFilesystem.Remove(filepath)
-	if err != nil && !os.IsNotExist(err) {
+	err := cache.RemoveFile(filepath)
+	if err != nil {
 		sigolo.Errorf("Unable to remove unfinished image '%s': %s", filepath, err.Error())
 	}
 }
@@ -260,8 +259,8 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		// The cached article of the image is used for all hosts. Remove it, because the image of this host is not
 		// available and the next host has to be asked for its own article.
 		imageArticleFilepath := cache.GetFilePathInCache(cache.ArticleCacheDirName, strings.ReplaceAll(imageName, " ", "_")+".json")
-		removeErr := util.CurrentFilesystem.Remove(imageArticleFilepath)
-		if removeErr != nil && !os.IsNotExist(removeErr) {
+		removeErr := cache.RemoveFile(imageArticleFilepath)
+		if removeErr != nil {
 			sigolo.Warnf("Unable to remove article file '%s' of image '%s': %s", imageArticleFilepath, imageName, removeErr.Error())
 		}
 		return "", freshlyDownloaded, err
-- 
2.43.0


From 4e13cad6aef2a9de9ded779e45bedf797b19c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 20/72] fix: Existing output file was truncated when
 determining its file info failed

---
 src/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.go b/src/main.go
index f5cf212..792cc15 100644
--- a/src/main.go
+++ b/src/main.go
@@ -505,7 +505,9 @@ func ensurePathsAndClearTempDir(outputFile string) string {
 		err = os.MkdirAll(filepath.Dir(outputFile), os.ModePerm)
 		sigolo.FatalCheck(errors.Wrapf(err, "Error creating output file %s", outputFile))
 
-		file, err = os.Create(outputFile)
+		// An existing file must not be truncated, which is why os.Create is not used here: Getting the file info above
+		// might have failed for another reason.
+		file, err = os.OpenFile(outputFile, os.O_RDONLY|os.O_CREATE, 0666)
 		sigolo.FatalCheck(err)
 	} else {
 		file, err = os.Open(outputFile)
-- 
2.43.0


From a4af27415c5baceff3577d3b1958394fa3c7057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 21/72] fix: failed processing of an SVG was handled like an
 unavailable image

---
 src/wikipedia/wikipedia.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index f2aeb9b..8c926ad 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -166,6 +166,14 @@ func (w *DefaultWikipediaService) lockImage(image string) func() {
 }
 
 func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshlyDownloaded bool) error {
+	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(outputFilepath) == util.FileEndingSvg {
+		err := image.MakeSvgSizeAbsolute(outputFilepath)
+		if err != nil {
+			removeUnfinishedImage(outputFilepath)
+			return errors.Wrapf(err, "Unable to make size of SVG '%s' absolute", outputFilepath)
+		}
+	}
+
 	outputFileExt := filepath.Ext(strings.ToLower(outputFilepath))
 
 	commandTemplate := ""
@@ -266,14 +274,6 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", freshlyDownloaded, err
 	}
 
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(cachedFilePath) == util.FileEndingSvg {
-		err = image.MakeSvgSizeAbsolute(cachedFilePath)
-		if err != nil {
-			removeUnfinishedImage(cachedFilePath)
-			return "", freshlyDownloaded, errors.Wrapf(err, "Unable to make size of SVG '%s' absolute", cachedFilePath)
-		}
-	}
-
 	return cachedFilePath, freshlyDownloaded, nil
 }
 
-- 
2.43.0


From ca450d37c721dc5d683743d45515f221f8b1b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 22/72] fix: Links to a section of the same article crashed the
 program

---
 src/parser/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..d190a76 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,10 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if linkTarget == "" {
+				// A link to a section of the same article, e.g. "[[#History]]". The name of the section is the link text.
+				linkText = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(wikitextElements[0]), "#"))
+			} else if linkTarget[0] == ':' {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
-- 
2.43.0


From 4e3eb4c487b5b42d60db8df4980f387a0636df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 23/72] fix: Tables without end crashed the program

---
 src/parser/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..ea7ee0c 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -98,6 +98,9 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	content = strings.ReplaceAll(content, "!!", "\n!")
 	lines := strings.Split(content, "\n")
 
+	// The end of the table might be missing in broken wikitext. Everything behind the first end is ignored anyway.
+	lines = append(lines, "|}")
+
 	var rowTokens []TableRowToken
 	var captionToken TableCaptionToken
 
-- 
2.43.0


From e56f923828d9e99e0df4172bd06698c61c39c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 24/72] fix: References without end crashed the program

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
-- 
2.43.0


From 928d98ecca125f5347e2d0d196236a7348a650b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 25/72] fix: Nowiki tags without end crashed the program

---
 src/parser/nowiki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..6e44240 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// Broken wikitext, there's no end token for this and therefore for any following start token.
+				break
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
-- 
2.43.0


From 5ea5702a59f210886d4aa4fdbefa511ceaea2922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 26/72] fix: Links without end crashed the program

---
 src/parser/cleaner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..0dbc0d2 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 {
+				// Broken wikitext, this is just some text in front of unclosed brackets.
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
@@ -107,7 +111,7 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 				isCategory := util.Contains(config.Current.CategoryPrefixes, linkPrefix)
 
 				if linkPrefix != "" && (isForbiddenPrefix || isCategory) {
-					content = content[0:i] + content[endIndex+2:]
+					content = content[0:i] + content[min(endIndex+2, len(content)):]
 
 					// Compensate "i++" from loop to not skip a character and continue with the outer loop to find the
 					// next link.
-- 
2.43.0


From 7a9b576beaf0992ffc3eb53235b84213a7e03aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 27/72] fix: Galleries and images without file name crashed the
 program

---
 src/parser/image.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..4b71972 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -53,6 +53,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		filename = strings.TrimSpace(fileSegments[1])
 	}
 
+	if filename == "" {
+		// Broken wikitext, there's no image at all
+		return ""
+	}
+
 	// Check if this media type is unwanted
 	fileExtension := strings.ToLower(strings.TrimPrefix(filepath.Ext(filename), "."))
 	if util.Contains(config.Current.IgnoredMediaTypes, fileExtension) {
-- 
2.43.0


From 08a78abb7b19b5c24eb48949e10cffa479c1578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 28/72] fix: Image maps without usable image crashed the
 program

---
 src/parser/image.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 4b71972..7102a4a 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -183,11 +183,19 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i == len(lines) {
+					// Broken wikitext, nothing follows the start of the imagemap
+					break
+				}
 				line = lines[i]
 			}
 
-			// "line" contains definitely the image of the imagemap
-			lines[i] = fmt.Sprintf("[[%s]]", t.escapeImages(line))
+			// "line" contains definitely the image of the imagemap, which might be of an ignored media type
+			line = t.escapeImages(line)
+			if line != "" {
+				line = fmt.Sprintf("[[%s]]", line)
+			}
+			lines[i] = line
 
 			withinImageMap = true
 			continue
-- 
2.43.0


From 5c77b1e9e49e6f54272b3753d4d91bb294a63c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 29/72] fix: Images without end crashed the program

---
 src/parser/image.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 7102a4a..fe0abf7 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -213,6 +213,10 @@ func (t *Tokenizer) parseImages(content string) string {
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 {
+			// Broken wikitext, this is just some text in front of unclosed brackets. Continue with the text behind them.
+			return content[:startIndex[1]] + t.parseImages(content[startIndex[1]:])
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
@@ -220,8 +224,9 @@ func (t *Tokenizer) parseImages(content string) string {
 
 		filePrefix := strings.ToLower(strings.SplitN(imageContent, ":", 2)[0])
 
+		contentBehindImage := content[min(endIndex+2, len(content)):]
 		if imageContent == "" || !util.Contains(config.Current.FilePrefixes, filePrefix) {
-			content = content[0:startIndex[0]] + content[endIndex+2:]
+			content = content[0:startIndex[0]] + contentBehindImage
 		} else {
 			options := strings.Split(imageContent, "|")
 
@@ -304,7 +309,7 @@ func (t *Tokenizer) parseImages(content string) string {
 			token := t.getToken(tokenType)
 			t.setRawToken(token, imageToken)
 
-			content = content[0:startIndex[0]] + token + content[endIndex+2:]
+			content = content[0:startIndex[0]] + token + contentBehindImage
 		}
 
 		// Find next image
-- 
2.43.0


From 4079cb6ec6bce907f8952c4656ccd84abe9b639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 30/72] fix: Image articles with unexpected title crashed the
 program

---
 src/wikipedia/wikipedia.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 8c926ad..d631416 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -242,8 +242,12 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	originalImageName = strings.ReplaceAll(originalImageName, " ", "_")
 
 	actualImageNameWithPrefix := imageArticle.Parse.Title
-	actualImageName := strings.Split(actualImageNameWithPrefix, ":")[1]
-	actualImageName = strings.ReplaceAll(actualImageName, " ", "_")
+	actualImageNameSegments := strings.Split(actualImageNameWithPrefix, ":")
+	if len(actualImageNameSegments) < 2 {
+		removeImageArticle(imageName)
+		return "", true, errors.Errorf("Unexpected title '%s' of the article of image '%s' from '%s'", actualImageNameWithPrefix, imageName, imageArticleHost)
+	}
+	actualImageName := strings.ReplaceAll(actualImageNameSegments[1], " ", "_")
 
 	md5sum := fmt.Sprintf("%x", md5.Sum([]byte(actualImageName)))
 	sigolo.Debugf("Download actual image '%s' from Wikimedia instance '%s'", actualImageName, imageArticleHost)
@@ -264,19 +268,24 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 
 	cachedFilePath, freshlyDownloaded, err := w.httpService.DownloadAndCache(imageUrl, cache.ImageCacheDirName, originalImageName)
 	if err != nil {
-		// The cached article of the image is used for all hosts. Remove it, because the image of this host is not
-		// available and the next host has to be asked for its own article.
-		imageArticleFilepath := cache.GetFilePathInCache(cache.ArticleCacheDirName, strings.ReplaceAll(imageName, " ", "_")+".json")
-		removeErr := cache.RemoveFile(imageArticleFilepath)
-		if removeErr != nil {
-			sigolo.Warnf("Unable to remove article file '%s' of image '%s': %s", imageArticleFilepath, imageName, removeErr.Error())
-		}
+		removeImageArticle(imageName)
 		return "", freshlyDownloaded, err
 	}
 
 	return cachedFilePath, freshlyDownloaded, nil
 }
 
+// removeImageArticle removes the article of the given image (e.g. "File:foo.jpg") from the cache. The cached article is
+// used for all hosts, so it has to be removed when the image of its host is not available and the next host has to be
+// asked for its own article.
+func removeImageArticle(imageName string) {
+	imageArticleFilepath := cache.GetFilePathInCache(cache.ArticleCacheDirName, strings.ReplaceAll(imageName, " ", "_")+".json")
+	err := cache.RemoveFile(imageArticleFilepath)
+	if err != nil {
+		sigolo.Warnf("Unable to remove article file '%s' of image '%s': %s", imageArticleFilepath, imageName, err.Error())
+	}
+}
+
 func (w *DefaultWikipediaService) EvaluateTemplate(template string, cacheFile string) (string, error) {
 	sigolo.Debugf("Evaluate template %s (hash/filename: %s)", util.TruncString(template), cacheFile)
 
-- 
2.43.0


From 5ee1014cda4d907ecbb9b2e3ccd075b2cb9c7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 31/72] fix: Unclosed token characters in the text crashed the
 program

---
 src/generator/expand.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..104a24d 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -85,6 +85,14 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	for i := 0; i < len(content); i++ {
 		if i < len(content)-1 && content[i:i+2] == "$$" {
 			// We found a token start -> Expand content before token and the token itself
+			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
+			if tokenEndIndex == -1 {
+				// These characters are just text and so is everything behind them.
+				if textSegmentStartIndex == -1 {
+					textSegmentStartIndex = i
+				}
+				break
+			}
 
 			// 1. Expand normal text before token (if there is any text before the token)
 			if textSegmentStartIndex != -1 {
@@ -94,7 +102,6 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 			}
 
 			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
 			tokenKey := content[i+2 : tokenEndIndex]
 
 			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-- 
2.43.0


From fa4cb82798337b1082b0fcf34f2a6525ab5e553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 32/72] fix: Dollar characters in the text prevented the
 generation of an article

---
 src/generator/expand.go | 76 +++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index 104a24d..c334e06 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -71,7 +71,7 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -79,55 +79,43 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			if tokenEndIndex == -1 {
-				// These characters are just text and so is everything behind them.
-				if textSegmentStartIndex == -1 {
-					textSegmentStartIndex = i
-				}
-				break
-			}
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	// Only use the actual matches as tokens, because the characters "$$" may also appear in normal text and a "$" may
+	// directly precede a token.
+	for _, match := range matches {
+		tokenStartIndex := match[0]
+		tokenEndIndex := match[1]
+
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < tokenStartIndex {
+			pureTextSegment := content[textSegmentStartIndex:tokenStartIndex]
+			expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
+			newContent += expandedPureTextSegment
 		}
+
+		// 2. Expand token and its content
+		tokenKey := content[tokenStartIndex:tokenEndIndex]
+
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+
+		textSegmentStartIndex = tokenEndIndex
 	}
 
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
+	if textSegmentStartIndex < len(content) {
 		pureTextSegment := content[textSegmentStartIndex:]
 		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
 		newContent += expandedPureTextSegment
-- 
2.43.0


From bdfadf9f08eea5f9e20ef0baa5d4b200124dd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 33/72] fix: Text looking like a token caused an endless
 recursion

---
 src/parser/pattern.go   | 3 +++
 src/parser/tokenizer.go | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..ccf8fe3 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -25,6 +25,9 @@ const (
 
 var (
 	tokenLineRegex = regexp.MustCompile(TOKEN_LINE_REGEX)
+
+	// Beginning of all tokens and markers that are used by the tokenizer
+	reservedTokenRegex = regexp.MustCompile(`\$\$(TOKEN_|MARKER_)`)
 )
 
 // Categories, templates, unwanted HTML
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..d6adc65 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -102,6 +102,8 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	}
 
 	sigolo.Debugf("Tokenize article '%s' [4/4]: Tokenize content", title)
+	// Text that looks like a token or marker of this tokenizer must not be mixed up with actual ones.
+	content = reservedTokenRegex.ReplaceAllString(content, "&#36;&#36;$1")
 	content = t.tokenizeContent(t, content)
 
 	sigolo.Debugf("Tokenize article '%s': Tokenization done", title)
-- 
2.43.0


From 972f9c741df9a586c428ce8c8dc6306c3485ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 34/72] fix: Absolute paths of font files in the configuration
 file were treated as relative ones

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..e4eca46 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -662,7 +662,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From 5b6d461bdd7e60c07850b7278fa6050088f21c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 35/72] fix: Order of image article hosts in project files and
 arguments had no effect

---
 src/config/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index e4eca46..1de0f83 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -605,7 +606,7 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-- 
2.43.0


From 0962153396b6eb080377f1eb2d09d971259b14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 36/72] fix: Cells of tables were split or cut at characters
 that do not separate cells

---
 src/parser/table.go | 72 +++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index ea7ee0c..ebb0fb8 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -1,6 +1,9 @@
 package parser
 
-import "strings"
+import (
+	"strings"
+	"wiki2book/util"
+)
 
 type TableToken struct {
 	Token
@@ -94,9 +97,10 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// ensure that each entry starts in a new row
-	content = strings.ReplaceAll(content, "||", "\n|")
-	content = strings.ReplaceAll(content, "!!", "\n!")
-	lines := strings.Split(content, "\n")
+	var lines []string
+	for _, line := range strings.Split(content, "\n") {
+		lines = append(lines, splitTableCells(line)...)
+	}
 
 	// The end of the table might be missing in broken wikitext. Everything behind the first end is ignored anyway.
 	lines = append(lines, "|}")
@@ -148,6 +152,31 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	return token
 }
 
+// splitTableCells splits a line with several cells into one line per cell. The separator "||" is allowed in lines with
+// normal and heading cells, the separator "!!" only in lines with heading cells. All other lines stay as they are.
+func splitTableCells(line string) []string {
+	trimmedLine := strings.TrimSpace(line)
+
+	isHeadingCell := strings.HasPrefix(trimmedLine, "!")
+	isDataCell := strings.HasPrefix(trimmedLine, "|") && !util.HasAnyPrefix(trimmedLine, "|-", "|+", "|}")
+	if !isHeadingCell && !isDataCell {
+		return []string{line}
+	}
+
+	cellMarker := trimmedLine[:1]
+	cellContents := trimmedLine[1:]
+	if isHeadingCell {
+		cellContents = strings.ReplaceAll(cellContents, "!!", "||")
+	}
+
+	var lines []string
+	for _, cellContent := range strings.Split(cellContents, "||") {
+		// The space ensures that content starting with e.g. a "-" isn't considered to be the start of a new row.
+		lines = append(lines, cellMarker+" "+cellContent)
+	}
+	return lines
+}
+
 // tokenizeTableRow expects i to be the line with the first text item (i.e. the line after |- ). Furthermore, this
 // function expects that each column of this row starts in a new line starting with  |  or  !  . The returned string is
 // never nil and an empty string represents an empty row, that can be ignored. The index points to the last text line of
@@ -165,8 +194,10 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
-		line = strings.TrimPrefix(line, "|")
-		line = strings.TrimPrefix(line, "!")
+		isHeading := strings.HasPrefix(line, "!")
+		if isHeading || strings.HasPrefix(line, "|") {
+			line = line[1:]
+		}
 		line = strings.TrimSpace(line)
 
 		// Collect all normal text rows until the next row or column starts.
@@ -183,21 +214,11 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine, attributeToken := t.tokenizeTableEntry(line)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
-		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
-			token = TableColToken{
-				Attributes: attributeToken,
-				Content:    tokenizedLine,
-				IsHeading:  true,
-			}
-		} else {
-			token = TableColToken{
-				Attributes: attributeToken,
-				Content:    tokenizedLine,
-			}
-		}
-
-		columnTokens = append(columnTokens, token)
+		columnTokens = append(columnTokens, TableColToken{
+			Attributes: attributeToken,
+			Content:    tokenizedLine,
+			IsHeading:  isHeading,
+		})
 	}
 
 	// TODO Can this be removed? Wouldn't it remove empty rows because "nil" is later interpreted as "nothing to see here"?
@@ -244,13 +265,14 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
-	if len(splittedContent) < 2 {
+	// The attributes stand in front of the first "|", which has to be in the first line.
+	attributeString, entryText, hasAttributes := strings.Cut(content, "|")
+	if !hasAttributes || strings.Contains(attributeString, "\n") {
 		return t.tokenizeContent(t, content), attributeToken
 	}
 
-	attributeString := strings.TrimSpace(splittedContent[0])
-	entryText := t.tokenizeContent(t, splittedContent[1])
+	attributeString = strings.TrimSpace(attributeString)
+	entryText = t.tokenizeContent(t, entryText)
 
 	var relevantTags []string
 
-- 
2.43.0


From d5eb9885827bcce279c2e8525450f23412d113e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 37/72] fix: Indented tables were torn apart

---
 src/parser/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index d6adc65..d7b5a79 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -154,8 +154,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 
 		content = t.parseExternalLinks(content)
 		content = t.parseMath(content)
-		content = t.parseLists(content)
 		content = t.parseTables(content)
+		content = t.parseLists(content)
 		content = t.parseParagraphs(content)
 
 		if content == originalContent {
-- 
2.43.0


From 087a72e939187d797f28c34ea262141fc06c87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 38/72] fix: Formatting and headings got mixed up with the
 content of references

---
 src/parser/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index d7b5a79..0b5cbf0 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -143,9 +143,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 
 		content = t.parseNowiki(content)
 
+		content = t.parseReferences(content)
 		content = t.parseBoldAndItalic(content)
 		content = t.parseHeadings(content)
-		content = t.parseReferences(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From aed3dda7c13009a7c6e943fb64e229d92ad05b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 39/72] fix: Text within nowiki tags was interpreted as HTML

---
 src/generator/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..057db86 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -394,7 +394,8 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *HtmlGenerator) expandNowiki(token parser.NowikiToken) string {
-	return token.Content
+	// The content is plain text, so something that looks like HTML must not be interpreted as HTML.
+	return strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(token.Content)
 }
 
 // write returns the output path or an error.
-- 
2.43.0


From 9c6841ead92ea84d0fad17379f1d85b6bbb8bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 40/72] fix: Links with a colon in their text were removed

---
 src/parser/cleaner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 0dbc0d2..371fa3b 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -83,7 +83,9 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			}
 
 			totalLinkContent := content[i+2 : endIndex]
-			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
+			// Only the target of a link can have prefixes, colons in the text of the link have no meaning.
+			linkTarget := strings.SplitN(totalLinkContent, "|", 2)[0]
+			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
 			// It's possible to link categories with a leading colon, e.g. [[:SomeCategory:SomeLinkText]]. They should
-- 
2.43.0


From 986606d5d2bf38e81ba730bd5338fff7d0fcbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 41/72] fix: Trailing templates lost their arguments, similarly
 named templates disappeared

---
 src/parser/cleaner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 371fa3b..dd41ad7 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -154,13 +154,13 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 			templateName := strings.ToLower(templateNameMatches[1])
 			templateName = strings.TrimSpace(templateName)
 
-			if util.HasAnyPrefix(templateName, ignoreTemplates...) || util.HasAnyPrefix(templateName, trailingTemplates...) {
+			if util.HasAnyPrefix(templateName, ignoreTemplates...) || util.Contains(trailingTemplates, templateName) {
 				// Replace the template with an empty string, since it should be ignored.
 				content = strings.Replace(content, templateText, "", 1)
 
 				// Collect templates that should be moved to the bottom of the article
 				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+					foundTrailingTemplates = append(foundTrailingTemplates, templateText)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -172,7 +172,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From fdc9f73ea74b1c8a7627cea2c041f2c31ef4ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 42/72] fix: References directly behind another tag were
 skipped

---
 src/parser/reference.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..78ae113 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -86,7 +86,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberCounterForCurrentGroup := refNumberCounter[currentPlaceholderGroup]
 			refNumberToContentForCurrentGroup := refNumberToContent[currentPlaceholderGroup]
 
+			lengthBehindTag := len(content) - startEndIndex - 1
 			content = t.parseReferenceEndPlaceholder(content, i, startEndIndex, refNumberCounterForCurrentGroup, refNumberToContentForCurrentGroup)
+			// Continue directly behind the tag, i.e. compensate the "i++" of the loop
+			i = len(content) - lengthBehindTag - 1
 			cursorWithinReferencePlaceholder = false
 			currentPlaceholderGroup = ""
 		} else if referencePlaceholderStartRegex.MatchString(content[i : startEndIndex+1]) {
@@ -94,6 +97,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			// TODO indices correct?
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
+			i--                                                // Continue directly behind the removed tag
 			cursorWithinReferencePlaceholder = true
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
@@ -112,6 +116,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberToContentForCurrentGroup := refNumberToContent[groupName]
 			refNumberCounterForCurrentGroup := refNumberCounter[groupName]
 
+			lengthBefore := len(content)
 			isReferenceUsage := content[startEndIndex-1] == '/' // Reference definitions end with "/>" instead of "</ref>"
 			if isReferenceUsage {
 				// Reference usage like "<ref name=foo />"
@@ -128,6 +133,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
+
+			if cursorWithinReferencePlaceholder && len(content) < lengthBefore {
+				i-- // Continue directly behind the removed reference
+			}
 		}
 	}
 
-- 
2.43.0


From 08d125340ccf92756503bc5924eb24c69c9505d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 43/72] fix: Captions that look like an image parameter got
 lost

---
 src/parser/image.go   | 31 ++++++++++++++++++++++++++-----
 src/parser/pattern.go | 12 ++++++++----
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index fe0abf7..c8b5c1f 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -13,7 +13,9 @@ import (
 
 var imageNonInlineParameters = []string{
 	"mini",
+	"miniatur",
 	"thumb",
+	"thumbnail",
 }
 
 type ImageToken struct {
@@ -88,6 +90,20 @@ func (t *Tokenizer) escapeImages(content string) string {
 	return strings.Join(segments, "|")
 }
 
+// isImageParameter returns true when the given option of an image is one of the given parameters, optionally with a value
+// (e.g. "alt=some text" or "page 2"). Any other option, even when it starts with the name of a parameter, is something
+// else, for example the caption of the image.
+func isImageParameter(option string, parameters []string) bool {
+	option = strings.TrimSpace(option)
+	for _, parameter := range parameters {
+		hasPrefix := len(option) >= len(parameter) && strings.EqualFold(option[:len(parameter)], parameter)
+		if hasPrefix && imageParameterValueRegex.MatchString(option[len(parameter):]) {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *Tokenizer) parseGalleries(content string) string {
 	lines := strings.Split(content, "\n")
 	withinGallery := false
@@ -124,7 +140,12 @@ func (t *Tokenizer) parseGalleries(content string) string {
 
 			lineSegments := strings.Split(trimmedLine, "|")
 
-			if !hasNonInlineParameterRegex.MatchString(trimmedLine) {
+			hasNonInlineParameter := false
+			for _, parameter := range lineSegments[1:] {
+				hasNonInlineParameter = hasNonInlineParameter || isImageParameter(parameter, imageNonInlineParameters)
+			}
+
+			if !hasNonInlineParameter {
 				// Line has no non-inline parameter -> Add one to make it a non-inline image in further image parsing/escaping
 				// The last parameter is the caption, so the non-inline parameter is added right behind the file name
 				newLineSegments := make([]string, len(lineSegments)+1)
@@ -240,17 +261,17 @@ func (t *Tokenizer) parseImages(content string) string {
 			// Do some cleanup: Remove definitely uninteresting options.
 			var filteredOptions []string
 			for _, option := range options {
-				if !util.HasAnyPrefix(option, config.Current.IgnoredImageParams...) {
+				if !isImageParameter(option, config.Current.IgnoredImageParams) {
 					filteredOptions = append(filteredOptions, option)
 				}
 			}
 
 			for i, option := range filteredOptions {
-				if util.HasAnyPrefix(option, imageNonInlineParameters...) {
+				if isImageParameter(option, imageNonInlineParameters) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
-				} else if strings.HasSuffix(option, "px") {
-					option = strings.TrimSuffix(option, "px")
+				} else if imageSizeRegex.MatchString(option) {
+					option = strings.TrimSuffix(strings.TrimSpace(option), "px")
 					sizes := strings.Split(option, "x")
 
 					// Valid formats:
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index ccf8fe3..1034e78 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"regexp"
-	"strings"
 )
 
 /*
@@ -43,9 +42,14 @@ var (
 
 // Media files
 var (
-	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
-	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
-	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
+	galleryStartRegex  = regexp.MustCompile(`(?i)^<gallery.*?>`)
+	imagemapStartRegex = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+
+	// Size of an image like "100px", "x200px" or "100x200px"
+	imageSizeRegex = regexp.MustCompile(`^\s*[\dx\s]*px\s*$`)
+
+	// Everything behind the name of an image parameter: Nothing, "=value" or a number
+	imageParameterValueRegex = regexp.MustCompile(`^(\s*=(?s:.*)|\s+[\d.,]+)?$`)
 )
 
 // Tables
-- 
2.43.0


From 36ac094d59b03bf2a0e04715e45ce0d8bbf08076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 44/72] fix: Alignment of table cells without semicolon was
 ignored

---
 src/parser/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 1034e78..5d86938 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -56,7 +56,7 @@ var (
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
 	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
+	tableTextAlignRegex     = regexp.MustCompile(`text-align:[^;"]+;?`)
 )
 
 // References
-- 
2.43.0


From b0eb9cdde1cc63704111c67c1ecbcee06721e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 45/72] fix: Colons in HTML tags split description lists

---
 src/parser/list.go    | 18 +++++++++++++++++-
 src/parser/pattern.go |  5 +++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/parser/list.go b/src/parser/list.go
index 3d97a63..7fdcbbb 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -159,7 +159,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 
 			if linePrefix == ";" {
 				// Description list head -> also check for description list item in the same line
-				lineParts := strings.SplitN(line[1:], ":", 2)
+				lineParts := splitDescriptionHead(line[1:])
 
 				headPart := t.tokenizeContent(t, lineParts[0])
 				headToken := ListItemToken{
@@ -219,6 +219,22 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 	return listToken, listTokenKey, startLineIndex + len(listLines)
 }
 
+// splitDescriptionHead splits the text of a description list head at the first colon that separates the head from an
+// item in the same line. Colons within HTML tags are no separators.
+func splitDescriptionHead(text string) []string {
+	tags := htmlTagRegex.FindAllStringIndex(text, -1)
+	for i, c := range text {
+		for len(tags) > 0 && tags[0][1] <= i {
+			tags = tags[1:]
+		}
+		isWithinTag := len(tags) > 0 && tags[0][0] <= i
+		if c == ':' && !isWithinTag {
+			return []string{text[:i], text[i+1:]}
+		}
+	}
+	return []string{text}
+}
+
 func belongsToListPrefix(line string, itemPrefix string) bool {
 	if len(line) == 0 {
 		return false
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 5d86938..7d1424c 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -52,6 +52,11 @@ var (
 	imageParameterValueRegex = regexp.MustCompile(`^(\s*=(?s:.*)|\s+[\d.,]+)?$`)
 )
 
+// Lists
+var (
+	htmlTagRegex = regexp.MustCompile(`</?[a-zA-Z][^<>]*>`)
+)
+
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-- 
2.43.0


From a2b8ce88cea3517cc798e578a6bbde7081ae02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 46/72] fix: Comments in front of text merged lines

---
 src/parser/cleaner.go | 12 ++++++++----
 src/parser/pattern.go |  5 ++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index dd41ad7..43e8b86 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -36,6 +36,7 @@ func (t *Tokenizer) removeComments(content string) string {
 
 	splitContent := strings.Split(content, "-->")
 	var resultSegments []string
+	indexBehindComment := 0
 
 	for i, splitItem := range splitContent {
 		if i == len(splitContent)-1 {
@@ -45,6 +46,8 @@ func (t *Tokenizer) removeComments(content string) string {
 			continue
 		}
 
+		indexBehindComment += len(splitItem) + len("-->")
+
 		segments := strings.Split(splitItem, "<!--")
 		if len(segments) == 1 {
 			resultSegments = append(resultSegments, segments...)
@@ -53,11 +56,12 @@ func (t *Tokenizer) removeComments(content string) string {
 			nonCommentSegment := segments[0]
 
 			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
-				// If this segments ends with a newline, the comment following it started with a newline. We remove the
-				// newline, because otherwise, there will be additional blank lines between former comments. Example:
+			textBeforeLine, isStartOfLine := strings.CutSuffix(strings.TrimRight(nonCommentSegment, " \t"), "\n")
+			if isStartOfLine && endOfCommentLineRegex.MatchString(content[indexBehindComment:]) {
+				// If there's nothing but comments in this line, we remove the newline in front of the comment, because
+				// otherwise, there will be additional blank lines between former comments. Example:
 				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
-				nonCommentSegment = nonCommentSegment[:len(nonCommentSegment)-1]
+				nonCommentSegment = textBeforeLine
 			}
 
 			resultSegments = append(resultSegments, nonCommentSegment)
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 7d1424c..4f54cdf 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -29,8 +29,11 @@ var (
 	reservedTokenRegex = regexp.MustCompile(`\$\$(TOKEN_|MARKER_)`)
 )
 
-// Categories, templates, unwanted HTML
+// Comments, categories, templates, unwanted HTML
 var (
+	// Everything behind a comment, when the rest of the line contains nothing but further comments
+	endOfCommentLineRegex = regexp.MustCompile(`^([ \t]|<!--(?s:.*?)-->)*(\n|$)`)
+
 	templateNameRegex = regexp.MustCompile(`{{\s*([^\n|}]+)`)
 	unwantedHtmlRegex = regexp.MustCompile(`</?(div|span)[^>]*>`)
 )
-- 
2.43.0


From ec6ec506815720ffc057c7513b96f2ddf82a7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 47/72] fix: Lines starting and ending with bold text were
 removed

---
 src/parser/cleaner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 43e8b86..621810c 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -306,7 +306,9 @@ func (t *Tokenizer) walkSection(i int, lines []string, previousHeadingDepth int)
 func (t *Tokenizer) headingDepth(line string) int {
 	if !strings.HasPrefix(line, "=") || !strings.HasSuffix(line, "=") {
 		// No real heading. But maybe a semi-heading (line with only bold text)?
-		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") {
+		boldText, hasBoldStart := strings.CutPrefix(line, "'''")
+		boldText, hasBoldEnd := strings.CutSuffix(boldText, "'''")
+		if hasBoldStart && hasBoldEnd && !strings.Contains(boldText, "'''") {
 			return semiHeadingDepth
 		}
 		// Not even semi-heading -> No heading at all
-- 
2.43.0


From ea20dd9ff8079275740c5cb4f4dac3f89999042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 48/72] fix: Equal signs within headings were removed

---
 src/parser/heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 17473f6..2e5bc82 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -21,7 +21,7 @@ func (t *Tokenizer) parseHeadings(content string) string {
 			line := strings.TrimSpace(lines[i])
 
 			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
-				headingText := strings.ReplaceAll(line, headingMediawikiMarker, "")
+				headingText := strings.TrimSuffix(strings.TrimPrefix(line, headingMediawikiMarker), headingMediawikiMarker)
 				headingText = strings.TrimSpace(headingText)
 
 				token := t.getToken(TOKEN_HEADING)
-- 
2.43.0


From aca028e0f995cc9684054831f157102f214c0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 49/72] fix: SVGs with one relative size attribute kept their
 size

---
 src/image/svg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 555af96..3300380 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -57,7 +57,7 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
-	if !strings.HasSuffix(attributes.Width, "%") && strings.HasSuffix(attributes.Height, "%") {
+	if !strings.HasSuffix(attributes.Width, "%") && !strings.HasSuffix(attributes.Height, "%") {
 		// Width and height are already absolute values, nothing to do here.
 		sigolo.Debugf("SVG file '%s' does not relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
 		return nil
-- 
2.43.0


From 58d078342c98e607135600145e107aececd7562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 50/72] fix: Values of viewBox attributes separated by commas
 and spaces were not recognised

---
 src/image/svg.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 3300380..cc1af1b 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"regexp"
 	"strings"
+	"unicode"
 	"wiki2book/util"
 
 	"github.com/hauke96/sigolo/v2"
@@ -91,18 +92,11 @@ func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAtt
 		return fileString
 	}
 
-	var viewboxAttributeValues []string
 	viewboxAttributeString := viewboxAttributeContentSlice[1]
 	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
-	if strings.Contains(viewboxAttributeString, ",") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, ",")
-	} else if strings.Contains(viewboxAttributeString, " ") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, " ")
-	} else {
-		// No supported separator found
-		sigolo.Debugf("Unsupported separator for 'viewBox' attribute values in file '%s', file stays unchanged. Expected comma or space in attribute 'viewbox=\"%s\"'", filename, viewboxAttributeString)
-		return fileString
-	}
+	viewboxAttributeValues := strings.FieldsFunc(viewboxAttributeString, func(c rune) bool {
+		return c == ',' || unicode.IsSpace(c)
+	})
 
 	if len(viewboxAttributeValues) != 4 {
 		// Wrong number of elements in viewbox
-- 
2.43.0


From cb171484210a0e8a1ec1ded2d0a6a2133ba7d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 51/72] fix: Size of SVGs with upper case file extension was
 not changed

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index d631416..03d9bc0 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -166,7 +166,7 @@ func (w *DefaultWikipediaService) lockImage(image string) func() {
 }
 
 func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshlyDownloaded bool) error {
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(outputFilepath) == util.FileEndingSvg {
+	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(outputFilepath)) == util.FileEndingSvg {
 		err := image.MakeSvgSizeAbsolute(outputFilepath)
 		if err != nil {
 			removeUnfinishedImage(outputFilepath)
-- 
2.43.0


From f60880fcd67dfdcaca63b567a3e9cf5ca72deda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 52/72] fix: Galleries and imagemaps with tags within a line
 were not recognised or swallowed the text behind them

---
 src/parser/image.go   | 91 +++++++++++++++++++++++++++----------------
 src/parser/pattern.go |  2 +
 2 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index c8b5c1f..ddb8041 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"strconv"
 	"strings"
 	"wiki2book/config"
@@ -104,8 +105,31 @@ func isImageParameter(option string, parameters []string) bool {
 	return false
 }
 
+// moveTagsToNewLines adds a line break in front of each tag that has other text in front of it in its line.
+func moveTagsToNewLines(content string, tagRegex *regexp.Regexp) string {
+	var result strings.Builder
+	lineStart := ""
+	lastIndex := 0
+	for _, match := range tagRegex.FindAllStringIndex(content, -1) {
+		textBefore := content[lastIndex:match[0]]
+		result.WriteString(textBefore)
+
+		lineStart += textBefore
+		lineStart = lineStart[strings.LastIndex(lineStart, "\n")+1:]
+		if strings.TrimSpace(lineStart) != "" {
+			result.WriteString("\n")
+		}
+
+		lineStart = content[match[0]:match[1]]
+		result.WriteString(lineStart)
+		lastIndex = match[1]
+	}
+	result.WriteString(content[lastIndex:])
+	return result.String()
+}
+
 func (t *Tokenizer) parseGalleries(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := strings.Split(moveTagsToNewLines(content, galleryTagRegex), "\n")
 	withinGallery := false
 	var resultLines []string
 
@@ -177,53 +201,52 @@ func (t *Tokenizer) parseGalleries(content string) string {
 }
 
 func (t *Tokenizer) parseImageMaps(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := strings.Split(moveTagsToNewLines(content, imagemapTagRegex), "\n")
 
 	withinImageMap := false
+	foundImage := false
+	var resultLines []string
 
-	for i := 0; i < len(lines); i++ {
-		line := lines[i]
+	for _, line := range lines {
+		trimmedLine := strings.TrimSpace(line)
 
-		// Delete uninteresting lines (end of map or all the polygon-map-stuff in between)
-		if withinImageMap || util.EqualsIgnoreCase(line, "</imagemap>") {
-			// delete this line i
-			lines = append(lines[:i], lines[i+1:]...)
-			i--
+		// Imagemap ends -> Remove tag, end "withinImageMap" mode and keep the text behind the tag
+		if util.HasPrefixIgnoreCase(trimmedLine, "</imagemap>") {
+			withinImageMap = false
 
-			// Imagemap ends -> end "withinImageMap" mode
-			if util.EqualsIgnoreCase(line, "</imagemap>") {
-				withinImageMap = false
+			trimmedLine = trimmedLine[len("</imagemap>"):]
+			if trimmedLine != "" {
+				resultLines = append(resultLines, trimmedLine)
 			}
-
 			continue
 		}
 
-		// Image map starts -> Parse the image
-		if imagemapStartRegex.MatchString(line) {
-			line = strings.TrimSpace(imagemapStartRegex.ReplaceAllString(line, ""))
-			if line == "" {
-				// if empty -> delete this line i, the next line contains the image
-				lines = append(lines[:i], lines[i+1:]...)
-				if i == len(lines) {
-					// Broken wikitext, nothing follows the start of the imagemap
-					break
-				}
-				line = lines[i]
-			}
-
-			// "line" contains definitely the image of the imagemap, which might be of an ignored media type
-			line = t.escapeImages(line)
-			if line != "" {
-				line = fmt.Sprintf("[[%s]]", line)
-			}
-			lines[i] = line
-
+		if imagemapStartRegex.MatchString(trimmedLine) {
+			// Image map starts -> Remove tag and see if the line also contains the image
 			withinImageMap = true
+			foundImage = false
+			trimmedLine = imagemapStartRegex.ReplaceAllString(trimmedLine, "")
+			trimmedLine = strings.TrimSpace(trimmedLine)
+		} else if !withinImageMap {
+			resultLines = append(resultLines, line)
+			continue
+		}
+
+		// Ignore uninteresting lines (empty lines, comments and all the polygon-map-stuff behind the image)
+		if foundImage || trimmedLine == "" || strings.HasPrefix(trimmedLine, "#") {
 			continue
 		}
+
+		// "trimmedLine" contains definitely the image of the imagemap, which might be of an ignored media type
+		foundImage = true
+		line = t.escapeImages(trimmedLine)
+		if line != "" {
+			line = fmt.Sprintf("[[%s]]", line)
+		}
+		resultLines = append(resultLines, line)
 	}
 
-	content = strings.Join(lines, "\n")
+	content = strings.Join(resultLines, "\n")
 	return content
 }
 
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 4f54cdf..935705e 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -47,6 +47,8 @@ var (
 var (
 	galleryStartRegex  = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	imagemapStartRegex = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	galleryTagRegex    = regexp.MustCompile(`(?i)<gallery(\s[^>]*)?>|</gallery>`)
+	imagemapTagRegex   = regexp.MustCompile(`(?i)<imagemap(\s[^>]*)?>|</imagemap>`)
 
 	// Size of an image like "100px", "x200px" or "100x200px"
 	imageSizeRegex = regexp.MustCompile(`^\s*[\dx\s]*px\s*$`)
-- 
2.43.0


From c5d563ebf0c50f6e4d6441b454fca7de263b103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 53/72] fix: Attributes of references with single quotes or
 spaces were not recognised and references within a group got lost

---
 src/parser/pattern.go   |  3 +++
 src/parser/reference.go | 35 +++++++++++------------------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 935705e..e157083 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -74,6 +74,9 @@ var (
 	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
 	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
 	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`)    // </references>
+
+	// Attribute like name="foo", name='foo' or name=foo
+	referenceAttributeRegex = regexp.MustCompile(`([^\s=/<>"']+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s/>]*))`)
 )
 
 // Math
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 78ae113..f2e23f5 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -103,6 +103,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			// Tag like "<ref name=..." or "<ref>..." found
 			nameAttributeValue := t.getNameAttribute(content[i+refDefStartLen : startEndIndex])
 			groupName := t.getGroupOrDefault(content[i+refDefStartLen : startEndIndex])
+			if groupName == defaultReferenceGroup && cursorWithinReferencePlaceholder {
+				// References within "<references group=foo>...</references>" belong to that group
+				groupName = currentPlaceholderGroup
+			}
 
 			if nameToRefNumber[groupName] == nil {
 				nameToRefNumber[groupName] = map[string]int{}
@@ -254,32 +258,15 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 	return defaultReferenceGroup
 }
 
-// getAttribute determines the values after "{attributeName}=" (so e.g. "name=") and supports quoted and unquoted
-// attributes. When unquoted attributes are used (e.g. as in name=foobar), the value is only interpreted until a space
-// of slash. For quoted attributes (e.g. as in name="foo bar") everything until the next quote is interpreted as name value.
+// getAttribute determines the value of the given attribute, e.g. the value after "name=". Quoted (with single or double
+// quotes) and unquoted attributes are supported and there might be spaces around the equal sign. When unquoted attributes
+// are used (e.g. as in name=foobar), the value is only interpreted until a space, slash or ">". For quoted attributes
+// (e.g. as in name="foo bar") everything until the next quote is interpreted as value.
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
-	if strings.Contains(content, " "+attributeName+"=\"") {
-		// Attribute with quotation
-		parts := strings.Split(content, "\"")
-		for i, part := range parts {
-			if strings.HasSuffix(part, " "+attributeName+"=") {
-				// Found attribute key, next item is the value which can be returned
-				return parts[i+1]
-			}
-		}
-	} else if strings.Contains(content, " "+attributeName+"=") {
-		// Attribute without quotation like "name=foo"
-		// The value ends with a space (separator for additional attributes) or slash (and of <ref.../>-token).
-		parts := strings.SplitN(content, " "+attributeName+"=", 2)
-		var letter rune
-		var attributeValue string
-		for _, letter = range parts[1] {
-			if letter == '/' || letter == ' ' || letter == '>' {
-				break
-			}
-			attributeValue += string(letter)
+	for _, submatch := range referenceAttributeRegex.FindAllStringSubmatch(content, -1) {
+		if util.EqualsIgnoreCase(submatch[1], attributeName) {
+			return submatch[2] + submatch[3] + submatch[4]
 		}
-		return attributeValue
 	}
 
 	// Attribut not found
-- 
2.43.0


From 144d1bd51eddeb6b9a42121f6ddcd0ec0b88a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 54/72] fix: Text directly behind the end of a table got lost

---
 src/parser/pattern.go | 4 +++-
 src/parser/table.go   | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index e157083..bbe1c7b 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -64,7 +64,9 @@ var (
 
 // Tables
 var (
-	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
+	tableStartRegex = regexp.MustCompile(`^(:*)(\{\|.*)`)
+	// End of a table with some text behind it
+	tableEndWithTextRegex   = regexp.MustCompile(`(?m)^([ \t]*\|\})[ \t]*([^\s}].*)$`)
 	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
 	tableTextAlignRegex     = regexp.MustCompile(`text-align:[^;"]+;?`)
 )
diff --git a/src/parser/table.go b/src/parser/table.go
index ebb0fb8..157b89b 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -34,6 +34,8 @@ type TableColAttributeToken struct {
 }
 
 func (t *Tokenizer) parseTables(content string) string {
+	// Text behind the end of a table belongs to the content behind the table
+	content = tableEndWithTextRegex.ReplaceAllString(content, "$1\n$2")
 	lines := strings.Split(content, "\n")
 
 	for i := 0; i < len(lines); i++ {
-- 
2.43.0


From e727655667bdafda122904ee70ddb9e48fbb7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:48 +0000
Subject: [PATCH 55/72] fix: Attributes of table cells with single quotes,
 spaces or upper case letters were ignored

---
 src/parser/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index bbe1c7b..38969f7 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -67,8 +67,8 @@ var (
 	tableStartRegex = regexp.MustCompile(`^(:*)(\{\|.*)`)
 	// End of a table with some text behind it
 	tableEndWithTextRegex   = regexp.MustCompile(`(?m)^([ \t]*\|\})[ \t]*([^\s}].*)$`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:[^;"]+;?`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(?i)\b(colspan|rowspan)\s*=\s*["']?(\d+)["']?`)
+	tableTextAlignRegex     = regexp.MustCompile(`(?i)text-align\s*:[^;"']+;?`)
 )
 
 // References
-- 
2.43.0


From 956582fc934a409b62b3d660d687e74aea618b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 56/72] fix: Brackets that are never closed were treated as
 link

---
 src/parser/link.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/link.go b/src/parser/link.go
index d190a76..81b77c4 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -71,6 +71,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		}
 
 		segments := strings.Split(splitItem, closingBrackets)
+		if len(segments) == 1 {
+			// The brackets are never closed, so this is just normal text, e.g. the interval "[0, 1)".
+			resultSegments = append(resultSegments, openingBrackets)
+			resultSegments = append(resultSegments, splitItem)
+			continue
+		}
 
 		possibleLinkWikitext := segments[0]
 
-- 
2.43.0


From dcc06e481a89cf6beba28b34b4bae7ff6c0b461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 57/72] fix: Unbalanced brackets within images and links
 disturbed the text behind them

---
 src/parser/cleaner.go |  2 +-
 src/parser/image.go   |  2 +-
 src/parser/util.go    | 16 +++++++++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 621810c..aaf19df 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -80,7 +80,7 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 		cursor := content[i : i+2]
 
 		if cursor == "[[" {
-			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			endIndex := findEndOfLink(content, i+2)
 			if endIndex == -1 {
 				// Broken wikitext, this is just some text in front of unclosed brackets.
 				continue
diff --git a/src/parser/image.go b/src/parser/image.go
index ddb8041..fefe969 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -256,7 +256,7 @@ func (t *Tokenizer) parseImages(content string) string {
 	startIndex := internalLinkStartRegex.FindStringIndex(content)
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
-		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		endIndex := findEndOfLink(content, startIndex[1])
 		if endIndex == -1 {
 			// Broken wikitext, this is just some text in front of unclosed brackets. Continue with the text behind them.
 			return content[:startIndex[1]] + t.parseImages(content[startIndex[1]:])
diff --git a/src/parser/util.go b/src/parser/util.go
index c5b0a2e..e8438f3 100644
--- a/src/parser/util.go
+++ b/src/parser/util.go
@@ -1,6 +1,9 @@
 package parser
 
-import "wiki2book/util"
+import (
+	"strings"
+	"wiki2book/util"
+)
 
 // FindCorrespondingCloseToken determines the index on which the given openingToken at the startIndex is closed. If the
 // closing token has not been found, -1 is returned. This function is case-sensitive.
@@ -14,6 +17,17 @@ func FindCorrespondingCloseTokenIgnoreCase(content string, startIndex int, openi
 	return findCorrespondingCloseToken(content, startIndex, openingToken, closingToken, true)
 }
 
+// findEndOfLink determines the index of the brackets that close the link or image, whose content starts at the given
+// index. If they have not been found, -1 is returned.
+func findEndOfLink(content string, startIndex int) int {
+	endIndex := FindCorrespondingCloseToken(content, startIndex, "[[", "]]")
+	if endIndex != -1 && strings.HasPrefix(content[endIndex+2:], "]") && strings.Contains(content[startIndex:endIndex], "[") {
+		// The first of three brackets belongs to the content, as in "[[File:foo.jpg|Some [http://foo.bar link]]]".
+		endIndex++
+	}
+	return endIndex
+}
+
 // findCorrespondingCloseToken determines the index on which the given openingToken at the startIndex is closed. If the
 // closing token has not been found, -1 is returned.
 func findCorrespondingCloseToken(content string, startIndex int, openingToken string, closingToken string, ignoreCase bool) int {
-- 
2.43.0


From 304a9a6e3c137faec80332e30f1d1c9aa80f826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 58/72] fix: Content of formulas was interpreted as wikitext

---
 src/parser/pattern.go   | 2 +-
 src/parser/tokenizer.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 38969f7..a98eb59 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -83,5 +83,5 @@ var (
 
 // Math
 var (
-	mathRegex = regexp.MustCompile(`<math.*?>((.|\n|\r)*?)</math>`)
+	mathRegex = regexp.MustCompile(`(?i)<math(?:\s(?:[^>]*[^/>])?)?>((.|\n|\r)*?)</math>`)
 )
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 0b5cbf0..4b4b972 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -141,7 +141,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 	for {
 		originalContent := content
 
+		// These elements contain no wikitext, so they have to be handled before everything else
 		content = t.parseNowiki(content)
+		content = t.parseMath(content)
 
 		content = t.parseReferences(content)
 		content = t.parseBoldAndItalic(content)
@@ -153,7 +155,6 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseImages(content)
 
 		content = t.parseExternalLinks(content)
-		content = t.parseMath(content)
 		content = t.parseTables(content)
 		content = t.parseLists(content)
 		content = t.parseParagraphs(content)
-- 
2.43.0


From f30954b18741f5027cde251598dfc57e4bed409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 59/72] fix: Content of formulas and nowiki elements was
 evaluated and cleaned like wikitext

---
 src/parser/pattern.go    |  8 ++++++++
 src/parser/protection.go | 30 ++++++++++++++++++++++++++++++
 src/parser/template.go   |  1 +
 src/parser/tokenizer.go  |  6 ++++++
 4 files changed, 45 insertions(+)
 create mode 100644 src/parser/protection.go

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index a98eb59..a979898 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -81,6 +81,14 @@ var (
 	referenceAttributeRegex = regexp.MustCompile(`([^\s=/<>"']+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s/>]*))`)
 )
 
+// Protection of elements, which contain no wikitext
+var (
+	// Comments are part of this, because everything that looks like an element in them is none. The delete-character
+	// of placeholders is not allowed in wikitext.
+	protectedElementRegex     = regexp.MustCompile(`(?is)<!--.*?-->|<nowiki>.*?</nowiki>|<math(?:\s(?:[^>]*[^/>])?)?>.*?</math>`)
+	protectedPlaceholderRegex = regexp.MustCompile("\x7f[0-9]+\x7f")
+)
+
 // Math
 var (
 	mathRegex = regexp.MustCompile(`(?i)<math(?:\s(?:[^>]*[^/>])?)?>((.|\n|\r)*?)</math>`)
diff --git a/src/parser/protection.go b/src/parser/protection.go
new file mode 100644
index 0000000..a92aaa9
--- /dev/null
+++ b/src/parser/protection.go
@@ -0,0 +1,30 @@
+package parser
+
+import (
+	"strconv"
+	"strings"
+)
+
+// protect replaces all elements whose content is not wikitext (nowiki and formulas) by placeholders. This prevents for
+// example the evaluation of things that just look like a template. Use unprotect to restore the original content.
+func (t *Tokenizer) protect(content string) string {
+	return protectedElementRegex.ReplaceAllStringFunc(content, func(element string) string {
+		if strings.HasPrefix(element, "<!--") {
+			// Whatever the comment contains, it's not an element.
+			return element
+		}
+		t.protectedElements = append(t.protectedElements, element)
+		return "\x7f" + strconv.Itoa(len(t.protectedElements)-1) + "\x7f"
+	})
+}
+
+// unprotect restores all elements of the given content, which have been replaced by placeholders by protect.
+func (t *Tokenizer) unprotect(content string) string {
+	return protectedPlaceholderRegex.ReplaceAllStringFunc(content, func(placeholder string) string {
+		index, err := strconv.Atoi(strings.Trim(placeholder, "\x7f"))
+		if err != nil || index >= len(t.protectedElements) {
+			return placeholder
+		}
+		return t.protectedElements[index]
+	})
+}
diff --git a/src/parser/template.go b/src/parser/template.go
index b067ef3..4887019 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -81,6 +81,7 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 				templateText = templateStartToken + newContent
 			}
 
+			templateText = t.unprotect(templateText)
 			key := util.Hash(templateText)
 
 			sigolo.Tracef("Evaluate template: %s", util.TruncString(templateText))
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 4b4b972..d2b45c0 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -50,6 +50,9 @@ type Tokenizer struct {
 	images           []string
 	wikipediaService wikipedia.WikipediaService
 
+	// Elements that have been temporarily replaced by placeholders, see protect function
+	protectedElements []string
+
 	tokenizeContent func(tokenizer *Tokenizer, content string) string
 }
 
@@ -84,6 +87,7 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	var err error
 
 	sigolo.Debugf("Tokenize article '%s' [1/4]: First cleanup", title)
+	content = t.protect(content)
 	content, err = t.clean(content)
 	if err != nil {
 		return nil, err
@@ -96,10 +100,12 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	}
 
 	sigolo.Debugf("Tokenize article '%s' [3/4]: Second cleanup", title)
+	content = t.protect(content)
 	content, err = t.clean(content)
 	if err != nil {
 		return nil, err
 	}
+	content = t.unprotect(content)
 
 	sigolo.Debugf("Tokenize article '%s' [4/4]: Tokenize content", title)
 	// Text that looks like a token or marker of this tokenizer must not be mixed up with actual ones.
-- 
2.43.0


From 79ed64e01f78566ce837dae2d46bdd0c9259eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 60/72] fix: HTML list item with a sub-list was never closed

---
 src/generator/html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 057db86..4998851 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -341,7 +341,7 @@ func (g *HtmlGenerator) expandListItem(token parser.ListItemToken) (string, erro
 			// item of the manual HTML within this list might contain additional arguments, so we use their item
 			// instead of the item from the template.
 			template = "%s"
-			if !strings.Contains(listItemString, "</li") {
+			if !strings.Contains(listItemContent, "</li") { // Sub-lists contain closing tags as well
 				template += "</li>"
 			}
 		} else {
-- 
2.43.0


From c1a4d85e127c7e784c9139275f39ae4f7fdeec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 61/72] fix: Cache eviction counted and deleted files within
 the cache dir that don't belong to the cache

---
 src/cache/cache.go | 75 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index e86d9ef..407e825 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -26,6 +26,10 @@ const (
 
 var (
 	cacheWriteMutex = &sync.Mutex{}
+
+	// The folders whose files belong to the cache. Anything else within the cache dir doesn't belong to wiki2book and is
+	// neither counted nor evicted.
+	cacheDirNames = []string{ArticleCacheDirName, HtmlCacheDirName, StatsCacheDirName, ImageCacheDirName, MathCacheDirName, TemplateCacheDirName}
 )
 
 func GetFilePathInCache(cacheFolderName string, filename string) string {
@@ -97,20 +101,11 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 	sigolo.Tracef("Caching strategy is '%s'", config.Current.CacheEvictionStrategy)
 	if config.Current.CacheEvictionStrategy != config.CacheEvictionStrategyNone {
 		var cacheSizeInBytes int64
-		err, cacheSizeInBytes = util.CurrentFilesystem.DirSizeInBytes(config.Current.CacheDir)
+		err, cacheSizeInBytes = getCacheSizeInBytes()
 		if err != nil {
 			return outputFilepath, errors.Wrap(err, fmt.Sprintf("Unable to determine size of cache folder '%s'", config.Current.CacheDir))
 		}
 
-		// The folder for temporary files is within the cache folder. These files don't count, especially not the new
-		// file itself, because its size will be added below.
-		var tempDirSizeInBytes int64
-		err, tempDirSizeInBytes = util.CurrentFilesystem.DirSizeInBytes(GetTempPath())
-		if err != nil {
-			return outputFilepath, errors.Wrap(err, fmt.Sprintf("Unable to determine size of temporary folder '%s'", GetTempPath()))
-		}
-		cacheSizeInBytes -= tempDirSizeInBytes
-
 		var tempFileStat os.FileInfo
 		tempFileStat, err = tempFile.Stat()
 		if err != nil {
@@ -144,6 +139,19 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 	return outputFilepath, nil
 }
 
+// getCacheSizeInBytes returns the total size of all cached files.
+func getCacheSizeInBytes() (error, int64) {
+	var cacheSizeInBytes int64
+	for _, cacheDirName := range cacheDirNames {
+		err, cacheDirSizeInBytes := util.CurrentFilesystem.DirSizeInBytes(GetDirPathInCache(cacheDirName))
+		if err != nil {
+			return err, 0
+		}
+		cacheSizeInBytes += cacheDirSizeInBytes
+	}
+	return nil, cacheSizeInBytes
+}
+
 // deleteFilesFromCacheIfNeeded deletes files from the cache based on the configured cache eviction strategy. When the
 // cache is small enough for the new file, no (further) files will be deleted.
 func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, newFileSizeInBytes int64, cacheSizeInBytes int64) error {
@@ -189,9 +197,15 @@ func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	var err error
 	var largestFilePath string
 	var largestFileSizeInBytes int64
-	err, largestFileSizeInBytes, largestFilePath = util.CurrentFilesystem.FindLargestFile(config.Current.CacheDir, TempDirName)
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Unable to determine largest file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
+	for _, cacheDirName := range cacheDirNames {
+		findErr, fileSizeInBytes, filePath := util.CurrentFilesystem.FindLargestFile(GetDirPathInCache(cacheDirName), TempDirName)
+		if findErr != nil {
+			return errors.Wrap(findErr, fmt.Sprintf("Unable to determine largest file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
+		}
+		if filePath != "" && (largestFilePath == "" || fileSizeInBytes > largestFileSizeInBytes) {
+			largestFilePath = filePath
+			largestFileSizeInBytes = fileSizeInBytes
+		}
 	}
 
 	if largestFilePath == "" {
@@ -211,9 +225,25 @@ func deleteLruFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	var err error
 	var lruFilePath string
 	var lruFileSizeInBytes int64
-	err, lruFileSizeInBytes, lruFilePath = util.CurrentFilesystem.FindLruFile(config.Current.CacheDir, TempDirName)
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
+	for _, cacheDirName := range cacheDirNames {
+		findErr, fileSizeInBytes, filePath := util.CurrentFilesystem.FindLruFile(GetDirPathInCache(cacheDirName), TempDirName)
+		if findErr != nil {
+			return errors.Wrap(findErr, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
+		}
+		if filePath == "" || filePath == lruFilePath {
+			continue
+		}
+		if lruFilePath != "" {
+			fileIsOlder, statErr := isUsedBefore(filePath, lruFilePath)
+			if statErr != nil {
+				return errors.Wrap(statErr, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
+			}
+			if !fileIsOlder {
+				continue
+			}
+		}
+		lruFilePath = filePath
+		lruFileSizeInBytes = fileSizeInBytes
 	}
 
 	if lruFilePath == "" {
@@ -229,6 +259,19 @@ func deleteLruFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	return err, cacheSizeInBytes - lruFileSizeInBytes
 }
 
+// isUsedBefore returns whether the last usage of the first file was before the last usage of the second one.
+func isUsedBefore(filePath string, otherFilePath string) (bool, error) {
+	fileStat, err := util.CurrentFilesystem.Stat(filePath)
+	if err != nil {
+		return false, err
+	}
+	otherFileStat, err := util.CurrentFilesystem.Stat(otherFilePath)
+	if err != nil {
+		return false, err
+	}
+	return fileStat.ModTime().Before(otherFileStat.ModTime()), nil
+}
+
 // GetFile determines whether the file is caches or not. It already returns the full file path, a boolean and an error.
 // The boolean only has a meaning when the error is nil. In such cases "true" means the file exists and can be used,
 // "false" means the file doesn't exist. In case of an error, the boolean is always "false".
-- 
2.43.0


From 2249114fb27d40b41e68081b70df1e19bdf60cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 62/72] fix: Article with already existing HTML file was
 missing in the book

---
 src/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.go b/src/main.go
index 792cc15..c10c31f 100644
--- a/src/main.go
+++ b/src/main.go
@@ -424,6 +424,7 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	articleOutputFile := ""
 	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
+		articleOutputFile = htmlFilePath
 	} else {
 		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
 		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-- 
2.43.0


From 6bbbfc492a32f91351f81ab45a41baa2f8d55c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 63/72] fix: Relative path of pandoc executable was not
 relative to the config file

---
 src/config/config.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index 1de0f83..d3568f0 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -304,7 +304,7 @@ type Configuration struct {
 	CommandTemplateWebpToPng string `json:"command-template-webp-to-png"`
 
 	/*
-		The executable name or file for pandoc.
+		The executable name or file for pandoc. Relative paths are relative to the config file.
 
 		Default: `"pandoc"`
 		JSON example: `"pandoc-executable": "/path/to/pandoc"`
@@ -659,6 +659,12 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	c.CoverImage, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.CoverImage)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of the executable, e.g. just "pandoc", is no path.
+		c.PandocExecutable, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	c.PandocDataDir, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
@@ -681,6 +687,12 @@ func (c *Configuration) MakePathsAbsoluteToWorkingDir() {
 	c.CoverImage, err = util.ToAbsolutePath(c.CoverImage)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of the executable, e.g. just "pandoc", is no path.
+		c.PandocExecutable, err = util.ToAbsolutePath(c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	c.PandocDataDir, err = util.ToAbsolutePath(c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
-- 
2.43.0


From 6bd7aef5cc50ac6230dc2cffdffc7988a687d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 64/72] fix: count the content of sub-lists in the statistics

---
 src/generator/stats.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index b6be249..40c8724 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,20 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+
+	for _, subListToken := range token.SubLists {
+		expandedSubList, err := expand(g, subListToken)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From f9c0dbdb229aee417c7bfbf89b10004d88c350d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:47 +0000
Subject: [PATCH 65/72] fix: count links to sections of an article as links to
 the article itself

---
 src/generator/stats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 40c8724..951ef3b 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -155,8 +155,14 @@ func (g *StatsGenerator) expandImage(token parser.ImageToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandInternalLink(token parser.InternalLinkToken) (string, error) {
+	articleName := token.ArticleName
+	if articleName == "" {
+		// A link to a section of the article itself
+		articleName = g.stats.ArticleName
+	}
+
 	g.stats.NumberOfInternalLinks++
-	g.stats.InternalLinks[token.ArticleName]++
+	g.stats.InternalLinks[articleName]++
 	return expand(g, token.LinkText)
 }
 
-- 
2.43.0


From 984aa8c4ab20bd1739eac55e8225195897472289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 66/72] fix: keep the text of links with unsupported protocols

---
 src/generator/expand.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index c334e06..dc28d59 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -46,6 +46,8 @@ func expandToken(expansionHandler ExpansionHandler, token parser.Token) (string,
 		html = expansionHandler.expandRefUsage(t)
 	case parser.NowikiToken:
 		html = expansionHandler.expandNowiki(t)
+	case parser.StringToken:
+		html, err = expand(expansionHandler, t.String)
 	}
 
 	if err != nil {
-- 
2.43.0


From 5a72b7024d13a852174ff543147e6bf4e13a8ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 67/72] fix: count the text of nowiki areas in the statistics

---
 src/generator/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 951ef3b..9bf7e3f 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -267,7 +267,7 @@ func (g *StatsGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandNowiki(token parser.NowikiToken) string {
-	return ""
+	return g.expandSimpleString(token.Content)
 }
 
 func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
-- 
2.43.0


From f5f6bb0872594b9c9ba6ce3d29a7fddec95bd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 68/72] fix: embed fonts into EPUBs of the internal driver

The path of the font file was used as name of the file within the EPUB, so the manifest listed a file that isn't there.
---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 8813adc..2e8704e 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -143,7 +143,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-		_, err = epubObj.AddFont(fontFile, fontFile)
+		_, err = epubObj.AddFont(fontFile, "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error adding font file %s to EPUB object", fontFile))
 		}
-- 
2.43.0


From c9fc3bb0091e201ad1bd98ec48f1592918c370c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:26 +0000
Subject: [PATCH 69/72] fix: use the style file in the articles of EPUBs of the
 internal driver

The file was added to the EPUB but none of its sections used it.
---
 src/generator/epub.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 2e8704e..f223bf5 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -109,6 +109,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
 	}
 
+	internalStylePath, err := epubObj.AddCSS(config.Current.StyleFile, "style.css")
+	if err != nil {
+		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+	}
+
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
 	var fileBytes []byte
 	internalImagePaths := map[string]string{}
@@ -129,17 +134,12 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 
 		// TODO Find a way to add subsections to TOC as well
-		_, err = epubObj.AddSection(fileContent, sectionTitle, "", "")
+		_, err = epubObj.AddSection(fileContent, sectionTitle, "", internalStylePath)
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
 	}
 
-	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
-	}
-
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-- 
2.43.0


From 8ee99fa86d4e3bd06ba8369d1682316d43295946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 70/72] fix: title of sections in EPUBs of the internal driver
 contained text of the article

This happened when the article contains further headings of the first level.
---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index f223bf5..c9309e2 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -114,7 +114,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
 	}
 
-	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
+	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	internalImagePaths := map[string]string{}
 	for _, sourceFile := range sourceFiles {
-- 
2.43.0


From b6180995594fc02970803537f1f4fd5cca0e78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 71/72] fix: content of EPUBs of the internal driver was no
 valid XHTML

The sections contained whole HTML documents, so nested html, head and body elements and elements that are not closed.
---
 src/generator/epub.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index c9309e2..499885d 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -15,6 +15,8 @@ import (
 	"github.com/go-shiori/go-epub"
 	"github.com/hauke96/sigolo/v2"
 	"github.com/pkg/errors"
+	"golang.org/x/net/html"
+	"golang.org/x/net/html/atom"
 )
 
 var (
@@ -133,6 +135,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 			return errors.Wrap(err, fmt.Sprintf("Error adding images of source file '%s' to the EPUB object", sourceFile))
 		}
 
+		fileContent, err = toXhtmlBody(fileContent)
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error turning content of source file '%s' into XHTML", sourceFile))
+		}
+
 		// TODO Find a way to add subsections to TOC as well
 		_, err = epubObj.AddSection(fileContent, sectionTitle, "", internalStylePath)
 		if err != nil {
@@ -161,6 +168,29 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	return nil
 }
 
+// toXhtmlBody turns the given HTML document into the XHTML that belongs between the body-tags of an EPUB section.
+func toXhtmlBody(htmlDocument string) (string, error) {
+	document, err := html.Parse(strings.NewReader(htmlDocument))
+	if err != nil {
+		return "", errors.Wrap(err, "Error parsing HTML")
+	}
+
+	var result strings.Builder
+	for node := range document.Descendants() {
+		if node.DataAtom != atom.Body {
+			continue
+		}
+		for child := range node.ChildNodes() {
+			err = html.Render(&result, child)
+			if err != nil {
+				return "", errors.Wrap(err, "Error rendering XHTML")
+			}
+		}
+		break
+	}
+	return result.String(), nil
+}
+
 // addImagesToEpub adds all images of the given HTML to the EPUB object and returns the HTML with adjusted image paths. The
 // map contains the EPUB-internal paths of all images that have already been added and will be extended.
 func addImagesToEpub(epubObj *epub.Epub, html string, internalImagePaths map[string]string) (string, error) {
-- 
2.43.0


From 062d913cc49bfca0a8022504978230fc71d20278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 72/72] fix: Report errors when closing the file of the
 combined statistics

---
 src/generator/stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 9bf7e3f..42e7014 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -366,6 +366,12 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		return errors.Wrapf(err, "Error writing combined stats to output file '%s'", outputFilePath)
 	}
 
+	// Written data might get lost when closing the file fails, so this error must not be ignored.
+	err = outputFile.Close()
+	if err != nil {
+		return errors.Wrapf(err, "Error closing output stats file '%s'", outputFilePath)
+	}
+
 	return nil
 }
 
-- 
2.43.0

