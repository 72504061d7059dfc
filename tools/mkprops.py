#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the wording stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
M="src/main.go"; C="src/cache/cache.go"; H="src/http/http.go"; W="src/wikipedia/wikipedia.go"; F="src/util/files.go"; I="src/image/image.go"; S="src/image/svg.go"; G="src/generator/html.go"; E="src/generator/epub.go"; ST="src/generator/stats.go"; T="src/parser/template.go"; X="src/util/cmd.go"

p("P01","The book does not depend on worker scheduling",
 "For every project, the produced book contains every listed article exactly as often and in exactly the order the project lists it, each with its complete content (text, expanded templates, images, formulas in their places). The result is the same for every number of worker threads and for every way their work can interleave, and equals what processing the articles one after another yields.",
 ["schedules","inputs","configurations"],"all projects (also with shared images/templates and repeated articles), all worker counts >= 1, all interleavings of the workers' steps and all relative latencies of the remote services",
 "The unit tests call single functions with mocks; nothing runs generateBookFromArticles with more than one worker, and one real run shows one interleaving.",
 [M,E,G,W,T],[("article channel, worker pool and wait group","src/main.go generateBookFromArticles"),("result slot chosen by article position","src/main.go generateBookFromArticles"),("per-article tokenizer and generator state","src/main.go processArticle")],
 [("articleOutputFiles","output file per article position",M),("articleChan","articles waiting for a worker",M)],["source list and embedded images given to the EPUB writer","bytes of the output file"])
p("P02","Cache files are complete or absent",
 "At every instant, and in particular after the program was killed or hit a disk or network error at any point, every file that is visible under its final name in the article, template, formula, image, HTML or statistics cache holds one complete, correct result for that name: the whole response body, the whole generated document, or the whole downloaded or converted image. No partially written file and no mix of two results ever appears under such a name.",
 ["crash_points","fault_sequences","schedules"],"all crash points between and inside file operations, all single and combined disk faults (short write, full disk, I/O error, failing rename), connection failures in the middle of a body, all worker interleavings",
 "The cache tests use a mock file system that never fails half-way and never stops the program; crash points are not reachable from them.",
 [C,H,I,S,W,F],[("write to temporary file, close, rename","src/cache/cache.go CacheToFile"),("global cache lock","src/cache/cache.go cacheWriteMutex"),("conversion output is moved into place","src/image/image.go")],
 [("final names in the cache folders","what later runs treat as valid content","cache directory")],["file system after every mutating operation"])
p("P03","Failed downloads never become content",
 "A response that is not a success - an error status, a reported API error, a failed connection, or a body that ends early - is never stored in the cache and never ends up in a book. After such a failure the resource counts as not available locally, so that the next run asks for it again.",
 ["fault_sequences","histories"],"all resources (article, template, image page, image file, formula check, formula image), all failure kinds at all request positions, over sequences of runs on one cache",
 "The HTTP tests feed two canned responses to a mock client; they cover neither failures inside a body nor the following run.",
 [H,W,C],[("status and error-header check","src/http/http.go doRequest"),("error return before caching","src/http/http.go DownloadAndCache"),("copy error aborts before rename","src/cache/cache.go CacheToFile")],None,["network log","cache content after the run"])
p("P04","The exit status tells the truth",
 "If a run ends with success, the output file is a finished book or statistics file made by this run, containing every requested article together with every template expansion, image and formula it needs, and every processing command that was needed succeeded. If anything that is needed could not be obtained, processed or written - and also if the program gets into an internal error - the run ends with a non-zero status.",
 ["fault_sequences","schedules"],"all single and multiple failures of network, disk and external commands at all positions, all interleavings of the workers in which they strike",
 "Tests call functions and look at returned errors one by one; whether an error in one of several workers reaches the exit status is decided nowhere.",
 [M,W,E,G,H,X],[("fatal error check on every stage","src/main.go processArticle, generateBookFromArticles"),("command exit status is checked","src/util/cmd.go Execute")],None,["exit status","output file","log of the external commands"])
p("P05","Runs recover from crashes and from deleted cache files",
 "After any history of runs that were killed at arbitrary points or failed because of network, disk or command errors, and after a user deleted any files or folders of the cache, the next undisturbed run with the same inputs succeeds. Its book equals the book a run with an empty cache produces.",
 ["crash_points","fault_sequences","histories"],"all crash points, all failing steps, all subsets of deleted cache files, sequences of up to several disturbed runs before the undisturbed one",
 "Tests never run the program twice on the same directory and cannot stop it at a chosen point.",
 [M,C,W,I,H],[("temporary file plus rename","src/cache/cache.go CacheToFile"),("temporary directory cleared at start","src/main.go ensurePathsAndClearTempDir"),("missing files are fetched or created again","src/http/http.go DownloadAndCache, src/wikipedia/wikipedia.go postProcessImage")],None,["exit status and book of the last run"])
p("P06","A filled cache makes further downloads unnecessary",
 "When an earlier successful run with the same inputs filled the cache and nothing in it has expired, been evicted or deleted, a further run makes no network request at all. It succeeds even if the network is down and produces the same book.",
 ["histories","schedules","configurations"],"all projects and configurations, all interleavings of first and second run, all elapsed times below the maximum age",
 "It is a statement about two whole runs; tests check single cache look-ups with mocks.",
 [C,H,W],[("cache look-up before each request","src/http/http.go DownloadAndCache"),("formula name cache","src/wikipedia/wikipedia.go getMathResource")],None,["network log of the second run","book of the second run"])
p("P07","Expired cache files are replaced, fresh ones are used",
 "A run never uses a cached download that is older than the configured maximum age at the moment it is needed: it fetches the resource again, and everything derived from it (converted or processed image, page, book) reflects the new version. A cached file younger than that is used without a request. (With the eviction strategy 'lru' each use renews a file's age, as documented.)",
 ["histories","configurations"],"all ages around the limit, changed and unchanged remote content, forward and backward clock jumps between runs, all resource kinds, eviction strategies without usage-time refresh (and the documented exception for LRU)",
 "Tests set one modification time on one mock file; time passing between whole runs and derived files are out of their reach.",
 [C,W,I],[("age check and removal","src/cache/cache.go GetFile, isOutdated"),("conversion is repeated for freshly downloaded images","src/wikipedia/wikipedia.go postProcessImage")],[("modification time","age of a cache entry","cache files")],["network log","book of the later run"])
p("P08","The cache respects its size limit",
 "With an eviction strategy switched on, right after any download or generated document has been added to the cache the total size of the cached files is at most the configured limit (files that external commands write into the cache in between are not counted until the next addition); something that can never fit makes the run fail cleanly instead of hanging or crashing. With eviction switched off, no run ever deletes a cached file that has not expired (apart from images whose processing failed and the pages of images their host does not deliver).",
 ["histories","schedules","configurations"],"all limits (also smaller than a single file), all sequences and interleavings of additions and replacements, caches pre-filled by earlier runs",
 "Tests call the deletion loop with made-up sizes on a mock; the real directory, the temporary file and concurrent additions are not involved.",
 [C,F],[("eviction before the rename","src/cache/cache.go CacheToFile, deleteFilesFromCacheIfNeeded"),("size of the cache directory","src/util/files.go DirSizeInBytes")],[("total cache size","sum of sizes of all files below the cache directory except temporary ones","cache directory")],["every rename into the cache","every removal in the cache"])
p("P09","Eviction removes the right files and no more than needed",
 "When room is needed, every evicted file is, at that moment, a largest file (strategy 'largest') or a least recently used one (strategy 'lru', where reading a cached file counts as use) of the cached files. Eviction happens only if the new file would otherwise exceed the limit, stops as soon as it fits, and never touches anything but cached files.",
 ["histories","schedules"],"all orders of uses and additions by several workers and several runs, ties in size or time, coarse time stamps, files being replaced",
 "Usage order is a property of a history of real file times; the tests compare calls on mocks with fixed answers.",
 [C,F],[("search for the largest / oldest file","src/util/files.go FindLargestFile, FindLruFile"),("time stamp refreshed on use","src/cache/cache.go GetFile"),("loop condition","src/cache/cache.go deleteFilesFromCacheIfNeeded")],None,["every removal in the cache"])
p("P10","Rate limiting by the server is obeyed",
 "After an answer 'too many requests' the same request is sent again, unchanged and complete, but not before the number of seconds the server demanded has passed (two seconds if it demanded none it understands), and this is repeated as often as the server insists. As soon as the server answers normally, the run goes on and its book is the same as without any rate limiting.",
 ["fault_sequences","schedules"],"all kinds of requests (also those with a body), any number of consecutive refusals, all forms of the server's waiting time, several workers being refused at once",
 "The tests replace the sleep by a no-op and check one GET; elapsed time and bodies of repeated requests are not observed.",
 [H],[("retry loop","src/http/http.go doRequest"),("sleep","src/http/http.go sleepFunc")],None,["network log with virtual time stamps"])
p("P11","Outgoing requests stay within the configured limits",
 "At no time are there more requests under way than worker threads configured, so that with one worker all requests are strictly sequential. Every request goes to one of the configured hosts, names exactly the needed resource and identifies itself with the configured user agent.",
 ["schedules","configurations"],"all interleavings and latencies, all worker counts, all host and user-agent configurations, rate limiting under way",
 "Concurrency of requests never occurs in the tests, which use mocked clients.",
 [M,H,W],[("fixed number of workers","src/main.go generateBookFromArticles"),("user agent header","src/http/http.go download, PostFormEncoded")],None,["network log"])
p("P12","Every run ends",
 "Every run comes to an end within a bounded number of steps as long as the remote services, disk and commands answer each call (with success or failure). No interleaving of workers, no failure of one of them, no content a server sends and no size of the cache leads to a deadlock or an endless loop.",
 ["schedules","fault_sequences","inputs"],"all schedules, all fault sequences, more or fewer articles than workers, arbitrary template expansions returned by the server, all cache limits",
 "A test either ends or times out on the single schedule and input it has; absence of deadlock needs all schedules.",
 [M,T,C,H],[("closing of the article channel and wait group","src/main.go generateBookFromArticles"),("placeholder replacement loop","src/parser/template.go evaluateTemplates"),("eviction loop","src/cache/cache.go deleteFilesFromCacheIfNeeded")],None,["scheduler state: runnable tasks and timers, step count"])
p("P13","Nothing outside cache and output is ever written",
 "A run creates, changes and deletes files only inside the configured cache directory, apart from its output file (and missing folders above it). This holds for every article title, image name and server answer, for failing and for killed runs, and for automatic eviction and cleaning. Files of the user that lie inside the cache directory are not touched either.",
 ["fault_sequences","crash_points","inputs"],"all titles and names (with separators, dots, special characters), all redirects, all fault and crash points, relative and absolute cache and output paths",
 "Tests compare single paths; the set of all files touched by whole, failing and interrupted runs is not observed.",
 [C,M,F,I,E],[("file names are sanitised","src/util/files.go SanitizeFilename, src/cache/cache.go GetFilePathInCache"),("eviction is limited to the cache directory","src/cache/cache.go")],None,["log of all mutating file operations"])
p("P14","A failed run leaves an earlier book untouched",
 "When a run fails or is killed before it starts writing its final output - for example while downloading, converting or generating the articles - an already existing file at the output path keeps exactly its earlier content.",
 ["fault_sequences","crash_points"],"all failures and crash points before the final assembly step, all output types, output given as file or as folder",
 "Needs two runs of which the second one dies at a chosen point.",
 [M,E,ST],[("existing output file is only opened for reading","src/main.go ensurePathsAndClearTempDir"),("output written in the last step","src/main.go generateBookFromArticles")],None,["bytes of the output file after the failed run"])
p("P15","Image sources are tried in the configured order",
 "For every image that is not cached, the configured image sources are asked one after another in the configured order until one of them delivers it, and the image in the book is the one of that first source (following the redirect that source reports). The run fails on an image only if no source delivers it, and never asks further sources once one has delivered.",
 ["fault_sequences","configurations"],"all numbers and orders of sources, all subsets of them failing in all ways and at both stages (image page, image file), images redirected or differing between sources",
 "The tests have one canned answer per call; the space of failing subsets and stages is not explored.",
 [W],[("loop over the sources","src/wikipedia/wikipedia.go downloadImageUsingAllSources"),("redirect resolution","src/wikipedia/wikipedia.go downloadImage")],None,["network log","image bytes in the book"])
p("P16","Every image is converted and processed exactly once",
 "Every image used in a book went through its configured conversion exactly once and then - for scalable formats - through the configured image processing exactly once for the download it stems from, no matter how many articles use it, in which order workers meet it, and how many runs share the cache. No image in a book was left out of these steps and none went through one of them twice. If enabled, an SVG with a relative width or height has the absolute size of its view box before it is converted, every other SVG keeps the size it has.",
 ["schedules","histories","configurations"],"all numbers of articles and workers sharing images, all interleavings, repeated runs, changed or expired sources, all combinations of enabled commands",
 "The tests count calls on a mock for one image and one caller.",
 [W,I],[("processing only after a fresh download","src/wikipedia/wikipedia.go postProcessImage")],None,["log of the external commands","provenance of the image bytes in the book"])
p("P17","Network and file resources are released",
 "Every response body received from the network and every opened file is closed again by the time the step using it is over, on success and on every failure. The number of simultaneously open ones stays bounded by the number of workers, however many articles, retries and failures a run has.",
 ["fault_sequences","schedules"],"all failure kinds and positions, any number of retries and unsuccessful image sources, all worker counts",
 "Leaks are invisible to tests that check results only.",
 [H,W,C,M,ST],[("deferred closing","src/http/http.go DownloadAndCache, src/cache/cache.go CacheToFile")],None,["handles open in the simulated network and file system at the end and as a high-water mark"])
p("P18","Runs sharing a cache do not damage each other",
 "Two runs may use the same cache directory at the same time. Each of them either fails with a non-zero status or produces the complete, correct book, and afterwards the cache contains only complete, correct files, so that a later run gives a correct book.",
 ["schedules","crash_points"],"all interleavings of the steps of two processes with overlapping articles and images, one of them possibly being killed",
 "No test starts two processes, and their relative timing cannot be controlled.",
 [C,M,W,I],[("unique temporary names and atomic rename","src/cache/cache.go CacheToFile")],None,["exit status and books of both runs","cache content"])
p("P19","Statistics add up and do not depend on order",
 "The combined statistics of a project equal the sums over its articles, name every article, and list links as uncovered exactly when no article of the project has that name. The same inputs give byte-identical statistics in every run, whatever the scheduling of workers.",
 ["schedules","inputs"],"all projects, all worker counts and interleavings, all iteration orders of unordered collections, ties between equally frequent links",
 "Tests compare one small example whose order happens to be fixed.",
 [ST,M],[("combination of the per-article files","src/generator/stats.go GenerateCombinedStats")],None,["bytes of the statistics file"])
p("P20","Temporary data is cleaned up",
 "After a successful run no temporary file of the program is left behind anywhere, and the cache contains nothing but finished entries. Temporary files a killed or failed earlier run left are gone after the next successful run, and leftovers never influence its result.",
 ["crash_points","fault_sequences","histories"],"all crash points and failures in earlier runs, arbitrary leftovers in the temporary folder",
 "Needs a killed run followed by a complete one.",
 [C,M],[("temporary directory removed at start and end","src/main.go"),("deferred removal of the temporary file","src/cache/cache.go CacheToFile")],None,["directory listing after the run"])
p("P21","No answer, fault or cached content crashes the program",
 "Whatever a remote service answers (broken, truncated or nonsensical data of any kind, any wikitext), whichever request, disk operation or external command fails, and whatever the cache contains, a run ends in an orderly way: either with the finished output or with a reported error and a non-zero status. It never ends in a crash of the program itself (a panic, a runtime error, exhausted stack or concurrent access to unprotected data).",
 ["inputs","fault_sequences","schedules"],"all wikitext (opened but never closed, wrongly nested and empty constructs), all malformed answers of every service, all single and combined faults, all interleavings of workers meeting them, caches left by killed runs",
 "Tests feed well-formed examples and mocks that succeed; the space of malformed answers times fault positions times interleavings is not sampled.",
 [M,C,H,W,I,S,"src/parser/tokenizer.go",G,"src/generator/expand.go",T],[("index arithmetic on unbalanced wikitext","src/parser/cleaner.go, src/parser/link.go, src/parser/table.go"),("missing values in answers","src/wikipedia/wikipedia.go"),("shared state of workers","src/cache/cache.go, src/http/http.go")],None,["way the simulated process ended, with the place of the crash"])
p("P22","Settings take effect with the documented precedence",
 "Every setting can be given as command line argument, in the project file or in the configuration file, and the documented default applies when it is given nowhere. A value on the command line overrides the one of the project file, which overrides the one of the configuration file, setting by setting; paths that are relative in one of the files are resolved against the folder of this file, wherever the program is started. A run whose settings come from several places makes the same requests, runs the same commands and produces the same output as one whose configuration file contains the resulting values. The title, author, license, language and date of the project, the style file, cover, fonts, data folder and depth of the table of contents reach pandoc.",
 ["configurations","histories"],"all settings, all ways to distribute them and overridden values over the three places, all relative and absolute paths, empty and filled caches, all interleavings",
 "Tests merge selected fields of two structures; that every single setting reaches the place where it takes effect from every place it can come from, and that none of them leaks into another, is only visible in whole runs.",
 ["src/config/config.go","src/config/project.go",M,"src/generator/epub.go"],[("merging","src/config/config.go MergeIntoCurrentConfig"),("relative paths","src/config/config.go makePathsAbsolute, MakePathsAbsoluteToWorkingDir"),("flags","src/main.go initCli"),("arguments of pandoc","src/generator/epub.go")],None,["requests, commands, cached files and output of a run and of its reference run on a copy of the same disk"])
p("P23","Impossible settings are refused before any work",
 "A run with a setting that cannot be fulfilled (unknown output type, driver, math converter or eviction strategy, a pair of type and driver that do not go together, a number outside its allowed range, a command without its placeholders, a file that does not exist, an unreadable configuration or project file, an unknown argument), given in any of the places settings can come from, ends with a non-zero status before it sends a request or executes a command; a file already at the output path and all cached files stay unchanged.",
 ["configurations","histories"],"all invalid values of all settings in all places, together with all valid other settings, on empty and filled caches",
 "Tests call the validation with single values; whether it happens for every source of settings and before the first effect is a property of whole runs.",
 ["src/config/config.go",M],[("validation","src/config/config.go AssertValidity, AssertFilesAndPathsExists"),("order of validation and first effect","src/main.go")],None,["requests, commands and disk after the run"])
p("P24","Different things never share a cached file or a place in the book",
 "Pages, images, templates and formulas that are different for the wiki, however similar their names are (special characters, upper and lower case, punctuation, file extensions, parameters), are kept in different files of the cache and appear as themselves in the book: no article, template, formula or image is replaced by another one. No name of a cached file contains a character that is forbidden in file names on the supported systems.",
 ["inputs","histories","schedules"],"all sets of valid titles, image names, template calls and formulas, fresh, filled and expired caches, all interleavings",
 "Tests convert a handful of names; that no two names of a project collide anywhere on the way from request to book needs whole runs over families of similar names.",
 [F,C,W,G],[("sanitising of names","src/util/files.go SanitizeFilename"),("names of cached files","src/cache/cache.go"),("names of evaluated templates and formulas","src/wikipedia/wikipedia.go"),("links to images","src/generator/html.go")],None,["cached files and the book"])
p("P25","Wikitext is rendered faithfully",
 "Well-formed wikitext becomes markup of exactly the structure it stands for, whatever is nested in it: headings with their level, paragraphs and line breaks, bold and italic text, the texts of internal links, external links with their target, ordered, unordered and description lists with their nesting, tables with their rows, heading and data cells, row and column spans, alignment, captions and nested tables and lists, images in the text or as figures with size and caption, galleries and image maps, references numbered per group with their list in place, wherever they are defined, formulas and nowiki text, whatever they contain, and the results of templates, trailing ones at the end of the article. No text is lost, doubled, reordered or put into another element, also not when it contains characters that have a meaning elsewhere; comments, category and language links, ignored templates and empty sections leave nothing behind; every element is closed where it was opened.",
 ["inputs","faults","schedules"],"all well-formed documents of the supported constructs, nested in each other, rendered by all numbers of workers, also after failed runs and with filled caches",
 "Tests render single constructs; which combinations of constructs disturb each other is a property of all documents.",
 ["src/parser/tokenizer.go","src/parser/table.go","src/parser/list.go","src/parser/reference.go","src/parser/image.go","src/parser/link.go","src/parser/formatting.go","src/parser/cleaner.go","src/generator/html.go"],[("tokenizer","src/parser/tokenizer.go"),("expansion of tokens","src/generator/expand.go"),("HTML of tokens","src/generator/html.go")],None,["generated HTML files and the book"])
p("P26","Statistics count all of an article",
 "The statistics of an article count every internal link (by the article it leads to, links to sections of the article itself as links to it), external link, image, formula, reference and use of a reference that the book would show, exactly once, wherever it stands: in lists of any depth, tables and their captions, captions of images, galleries, references, templates and trailing templates. Nothing the book would not show (comments, ignored templates, empty sections, category and language links) is counted. Every word and character of the text counts, also within nowiki areas.",
 ["inputs","faults","schedules"],"all well-formed documents of the supported constructs, nested in each other, for all numbers of workers, also after failed runs and with filled caches",
 "Tests count single constructs; that nothing is forgotten or counted twice in any combination of constructs is a property of all documents.",
 ["src/generator/stats.go","src/generator/expand.go","src/parser/tokenizer.go"],[("counting of tokens","src/generator/stats.go StatsGenerator"),("expansion of tokens","src/generator/expand.go")],None,["statistics files of articles and the combined statistics"])
p("P27","EPUBs written by the program itself are well-formed and complete",
 "Every EPUB that the internal driver writes in a successful run starts with its media type, contains no file twice, and all its XML and XHTML files are well-formed; each section is one document with one head and one body. The manifest lists exactly the files of the book, with distinct ids. The reading order and both tables of contents have one entry per article, in the order of the project and with the titles of the articles. Every section uses the configured style file; nothing that a section refers to is missing. The configured fonts (under their file names) and the configured cover are in the book with the content of their files, and title, author and language are those of the project.",
 ["inputs","faults","schedules"],"all articles of the supported wikitext, all titles, all combinations of fonts, style, cover and metadata, also when settings come from several places, after failed runs and with filled caches",
 "Tests open no EPUB of the internal driver; that no article, title or setting leads to a file reading systems reject is a property of all inputs.",
 ["src/generator/epub.go","src/generator/html.go"],[("internal EPUB driver","src/generator/epub.go GenerateEpubWithGoLibrary"),("document of an article","src/generator/html.go Generate")],None,["the files of the EPUB"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["id"]
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
