From 3e948c44fc8d73a8216390cd3d2841313ee67aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 01/29] fix: report an invalid lexicon or grammar from the
 query cache instead of crashing

CreateStd passed a NULL char** to the loaders, so any load error dereferenced
NULL; on a bad grammar the lexicon was also freed twice, and SPI_finish was
called without a matching SPI_connect.
---
 src/std_pg_hash.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 9f96aa9..d0ed151 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -587,7 +587,7 @@ CreateStd(char *lexicon, char *grammar)
     STANDARDIZER     *std;
     void             *lex;
     void             *gmr;
-    char            **err_msg = NULL;
+    char             *err_msg = NULL;
     char             *pmsg;
 
     DBG("Enter: CreateStd");
@@ -599,26 +599,23 @@ CreateStd(char *lexicon, char *grammar)
 
 
     DBG("Calling getLexiconPtr( lexicon, err_msg )");
-    lex = getLexiconPtr( lexicon, err_msg );
+    lex = getLexiconPtr( lexicon, &err_msg );
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
-        SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
     }
     std->lex_obj = lex;
 
     DBG("Calling getGrammarPtr( grammar, err_msg )");
-    gmr = getGrammarPtr( grammar, err_msg );
+    gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
-        freeLexiconPtr( lex );
         std_free(std);
-        SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
     }
     std->gmr_obj = gmr;
-- 
2.43.0


From 78952960cfc93be16bc0eae9f958e5832b47a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 02/29] fix: strip exactly the three BOM bytes from a grammar
 or lexicon

substr(4) also dropped the first character of the file, and threw on a line
that holds nothing but the BOM.
---
 src/grammar.cpp | 2 +-
 src/lexicon.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 7b84814..a84b4dd 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -69,7 +69,7 @@ void Grammar::initialize( std::istream &is )
 
         // remove UTF8 BOM if one exists
         if ( line_cnt == 1 and line[0] == '\xEF' and line[1] == '\xBB' and line[2] == '\xBF' )
-            line = line.substr(4);
+            line = line.substr(3);
 
         // skip over comments and blank lines
         if ( boost::u32regex_match( line, re_comment ) ) 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 098a8d2..304d2d2 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -74,7 +74,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
-        line = line.substr(4);
+        line = line.substr(3);
     ++cnt;
 
     // read the header and skip any
-- 
2.43.0


From d1e08cce6ce8585053530eaac2b7848eed0b406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 03/29] fix: accept lexicons with CRLF line ends

docs/lexicon.md allows them and data/sample/germany.lex has them, but the CR
stayed on the last field: the last attachment was lost, a type list in last
place became BADTOKEN, and a blank line was an error.
---
 src/lexicon.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 304d2d2..25f3aba 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -64,6 +64,14 @@ Lexicon::Lexicon(std::string name, std::string file) :
 }
 
 
+// lines may end in CRLF or LF, drop the CR that getline leaves behind
+
+static void stripCR( std::string &line ) {
+    if ( not line.empty() and line.back() == '\r' )
+        line.pop_back();
+}
+
+
 void Lexicon::initialize( std::istream &is ) {
     std::string line;
     std::string lexicon_in;
@@ -71,6 +79,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     std::getline( is, line );
     lexicon_in += line;
+    stripCR( line );
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
@@ -84,6 +93,7 @@ void Lexicon::initialize( std::istream &is ) {
         }
         std::getline( is, line );
         lexicon_in += line;
+        stripCR( line );
         ++cnt;
     }
 
@@ -114,6 +124,7 @@ void Lexicon::initialize( std::istream &is ) {
     while ( is ) {
         std::getline( is, line );
         lexicon_in += line;
+        stripCR( line );
         ++cnt;
         //std::cout << "\t" << line << "\n";
 
-- 
2.43.0


From 1ca3552f95e90c163893ade1ce606e8c0470115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 04/29] fix: do not drop the rest of an address at an
 unexpected character

A leading separator that is not in the lexicon, a leading em dash, or any
character that is neither a letter, a digit, punctuation nor a space (a '+',
a '$', a combining mark) made the token regex fail, so the remainder of the
address silently disappeared. Treat whatever cannot be part of a word as a
separator, and allow one in front of the first word.
---
 src/tokenizer.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 2806648..3b9c66b 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -185,22 +185,23 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
 
     // build the regex for identifying tokens
     //
-    // ^\\s*                    -- ignore leading white space
-    // (?!(?:\xe2\x80\x94)+)    -- ignore optional leading uft8 emdash
+    // ^[\\s\xe2\x80\x94]*      -- ignore leading white space and utf8 emdash
     // (                        -- capture token
     //  lex_.regex()            -- include regex for lexicon entries
     //  \\d+[/,\\.]\\d+ |       -- numbers and fractions  99/99, 99.99, 99,99
     //  \\d+ |                  -- integers 99
     //  \\<[[:alpha:]]+\\> |    -- words
     //  [\\p{L}\\p{Nd}]+ |      -- utf8 letter followed by digits
-    //  [[:alpha:]\\d]+         -- letter followed by digits  A1, B99
+    //  [[:alpha:]\\p{M}\\d]+ | -- letters, marks and digits  A1, B99
+    //                          -- or nothing, before a leading separator
     // )
     // (                        -- capture separator following token
-    //  [-&\\s\\|[:punct:]]+ |  -- 1+ of '-', space, [:punct:]
-    //  \xe2\x80\x94 |          -- utf8 emdash
+    //  [^[:alpha:]\\p{M}\\d]+ |-- 1+ of anything that can not be in a word
     //  $                       -- or end of string
     // )
-    std::string regex = "^\\s*(?!(?:\xe2\x80\x94)+)(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\d]+)([-&\\s\\|[:punct:]]+|\xe2\x80\x94|$)";
+    // so every character is part of a token or a separator and none can
+    // stop the scan and drop what follows it
+    std::string regex = "^[\\s\xe2\x80\x94]*(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\p{M}\\d]+|)([^[:alpha:]\\p{M}\\d]+|$)";
 
     boost::u32regex re = boost::make_u32regex( regex, boost::regex::icase );
 
-- 
2.43.0


From 898f10248a00d36a732f094a8834d014b34297f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 05/29] fix: keep a separator that contains a tab

Token(std::string) parses a tab separated record, so the separator lost the
tab and everything behind it and became an empty token.
---
 src/tokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 3b9c66b..59b29ae 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -237,7 +237,9 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
 
         // create a token for the punctuation
         if (what[2].first < what[2].second) {
-            Token punct( std::string(what[2].first, what[2].second) );
+            // Token(string) would parse a tab as a field delimiter
+            Token punct;
+            punct.text( std::string(what[2].first, what[2].second) );
             punct.trim( 3 );    // trim white space from both ends of token
             lex_.classify(punct, InClass::PUNCT);
             outtokens.push_back(punct);
-- 
2.43.0


From 8387cee7ae645f0fdeb9ff7a5b74c3a99cb9b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 06/29] fix: do not split a SPACE token into two empty words

Without SPACE in the filter every blank doubled the number of alternative
tokenizations, with empty WORD tokens in them.
---
 src/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 59b29ae..260d37a 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -15,6 +15,7 @@
 #include <string>
 #include <boost/algorithm/string/classification.hpp>
 #include <boost/algorithm/string/split.hpp>
+#include <boost/algorithm/string/trim.hpp>
 
 #include "tokenizer.h"
 #include "utils.h"
@@ -279,6 +280,8 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
         // split each token into words
         std::vector<std::string> words;
         std::string str( t.text() );
+        // a SPACE token has no words in it to split
+        boost::trim_if(str, boost::is_any_of(" "));
         boost::split(words, str, boost::is_any_of(" "), boost::token_compress_on);
         alt.push_back( words );
     }
-- 
2.43.0


From 295e34b38608a87d9ffec7a3421264e2eb255094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 07/29] fix: apply the filter to the alternative tokenizations
 too

A word that the filter removes from the primary tokenization came back as
soon as it was a part of a split up phrase.
---
 src/tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 260d37a..8cdaec5 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -322,7 +322,7 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
                 ++n;
             }
         }
-        list.push_back( one );
+        list.push_back( applyFilter( one ) );
     }
 
     return list;
-- 
2.43.0


From fcaa071e47290cca9644bc85f7f25dac5f4b1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 08/29] fix: continue each partial match once

matchNext restarted all the partial matches for each one of them, so every
rule that matched multiplied the results: as_match returned each match many
times over and the search took exponentially longer.
---
 src/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search.cpp b/src/search.cpp
index 74f588a..06cb2d3 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -392,7 +392,7 @@ SearchPaths Search::matchNext( const SearchPath &path, const unsigned long int l
 
     for ( const auto &result : mr ) {
         if ( result.next.size() > 0 ) {
-            SearchPaths nextResults = matchNext( mr, level );
+            SearchPaths nextResults = matchNext( result, level );
             for ( const auto &result : nextResults )
                 results.push_back( result );
         }
-- 
2.43.0


From 992729b6416941309aadf8ca7ec82f27b144dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 09/29] fix: count characters, not bytes, for SINGLE, DOUBLE,
 QUAD and QUINT

A single accented letter was classified as DOUBLE, a pair as neither.
---
 src/lexicon.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 25f3aba..6feeb46 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -209,6 +209,13 @@ void Lexicon::standardize( Token& token ) {
 }
 
 
+// the number of characters, not bytes, in a UTF8 string
+
+static int charCount( const std::string &str ) {
+    return icu::UnicodeString::fromUTF8( icu::StringPiece( str ) ).countChar32();
+}
+
+
 void Lexicon::classify( Token& token, InClass::Type typ ) {
     
     // fetch the entry from the lexicon
@@ -254,9 +261,9 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
     }
     else if (boost::u32regex_match( text, num_exp )) {
         token.inclass( InClass::NUMBER );
-        if (text.length() == 4)
+        if (charCount( text ) == 4)
             token.inclass( InClass::QUAD );
-        if (text.length() == 5)
+        if (charCount( text ) == 5)
             token.inclass( InClass::QUINT );
     }
     else if ( text == "@" ) {
@@ -285,9 +292,9 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
         if (boost::u32regex_match( text, has_digit ))
             token.inclass( InClass::MIXED );
         else {
-            if (text.length() == 2)
+            if (charCount( text ) == 2)
                 token.inclass( InClass::DOUBLE );
-            else if (text.length() == 1)
+            else if (charCount( text ) == 1)
                 token.inclass( InClass::SINGLE );
 
             token.inclass( InClass::WORD );
-- 
2.43.0


From 848e72dbf43e047af23068404f6fa55c6cbda12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 10/29] fix: quote ^ { } in the lexicon regex

A lexicon word with one of these characters was read as a regex operator:
a '^' entry turned a character class into its complement.
---
 src/trieutf8.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index aee5370..f7c8853 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -121,7 +121,7 @@ void TrieUtf8::getWordsStartingWith( const std::string &prefix, WordSet &words,
 
 
 std::string TrieUtf8::quoteMeta( const std::string &str ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~^$()[]{}\\|?" );
 
     std::string tmp;
     size_t last = 0;
-- 
2.43.0


From f35084758b4b6919535d55c7c032205fb275b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 11/29] fix: keep combining marks in words, and braces out of
 them

---
 src/tokenizer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 8cdaec5..6d6995c 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -192,17 +192,19 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
     //  \\d+[/,\\.]\\d+ |       -- numbers and fractions  99/99, 99.99, 99,99
     //  \\d+ |                  -- integers 99
     //  \\<[[:alpha:]]+\\> |    -- words
-    //  [\\p{L}\\p{Nd}]+ |      -- utf8 letter followed by digits
-    //  [[:alpha:]\\p{M}\\d]+ | -- letters, marks and digits  A1, B99
+    //  [[:L*:][:Nd:]]+ |       -- utf8 letter followed by digits
+    //  [[:alpha:][:M*:]\\d]+ | -- letters, marks and digits  A1, B99
     //                          -- or nothing, before a leading separator
     // )
     // (                        -- capture separator following token
-    //  [^[:alpha:]\\p{M}\\d]+ |-- 1+ of anything that can not be in a word
+    //  [^[:alpha:][:M*:]\\d]+ |-- 1+ of anything that can not be in a word
     //  $                       -- or end of string
     // )
+    // note: inside of [] \\p{M} is only the characters p { M }, the classes of
+    // characters are written [:M*:] there
     // so every character is part of a token or a separator and none can
     // stop the scan and drop what follows it
-    std::string regex = "^[\\s\xe2\x80\x94]*(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\p{M}\\d]+|)([^[:alpha:]\\p{M}\\d]+|$)";
+    std::string regex = "^[\\s\xe2\x80\x94]*(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[[:L*:][:Nd:]]+|[[:alpha:][:M*:]\\d]+|)([^[:alpha:][:M*:]\\d]+|$)";
 
     boost::u32regex re = boost::make_u32regex( regex, boost::regex::icase );
 
-- 
2.43.0


From c39fbcacd35de6980dba2a7df3dff3f8ec9ac79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 12/29] fix: read the last line of a grammar or lexicon once

A text that does not end in a newline had its last line read twice, so the
last rule (or list of references) of a grammar was there twice, and a lexicon
of one header line was refused.
---
 src/grammar.cpp | 3 +--
 src/lexicon.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index a84b4dd..f6ad6ea 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -61,9 +61,8 @@ void Grammar::initialize( std::istream &is )
 
     boost::smatch what;
     int line_cnt = 0;
-    while ( is ) {
+    while ( std::getline( is, line ) ) {
         ++line_cnt;
-        std::getline( is, line );
         grammar_in += line;
         //std::cout << "\t" << line_cnt << ": " << line << "\n";
 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 6feeb46..7df38d1 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -121,8 +121,7 @@ void Lexicon::initialize( std::istream &is ) {
     UErrorCode errorCode;
 
     // read in the lexicon entries
-    while ( is ) {
-        std::getline( is, line );
+    while ( std::getline( is, line ) ) {
         lexicon_in += line;
         stripCR( line );
         ++cnt;
-- 
2.43.0


From 588725e3788e66ad636a3cdf6f44873d132884e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 13/29] fix: refuse a rule whose score is not a number

---
 src/rule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule.cpp b/src/rule.cpp
index a1fd1b8..a5ab5e3 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -70,7 +70,7 @@ bool Rule::isEmpty() const {
 }
 
 bool Rule::isValid() const {
-    if ( inClass_.size() != outClass_.size() or score_ <= 0 )
+    if ( inClass_.size() != outClass_.size() or not ( score_ > 0 ) )
         return false;
 
     return true;
-- 
2.43.0


From 50535c807c42e023d7b15b789cc6bbe680112310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 14/29] fix: free the lexicon that could not be loaded

---
 src/as_wrapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 622798b..34e337d 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -18,6 +18,7 @@
 #include <string>
 #include <vector>
 #include <cstdlib>
+#include <memory>
 #include <algorithm>
 
 #include <boost/archive/text_iarchive.hpp>
@@ -562,7 +563,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
     try {
         std::string s( lexicon_in );
         std::istringstream iss( s );
-        Lexicon* lexicon = new Lexicon;
+        std::unique_ptr<Lexicon> lexicon( new Lexicon );
         try {
             boost::archive::text_iarchive ia(iss);
             ia >> *lexicon;
@@ -581,7 +582,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
             lexicon->name( "query-lex" );
             lexicon->initialize( iss );
         }
-        return static_cast<void*>(lexicon);
+        return static_cast<void*>(lexicon.release());
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
-- 
2.43.0


From 40cb6306c61d476b3e593be645584f9a1ade7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 15/29] fix: free the error text of an address that could not
 be processed

---
 src/address_standardizer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 32b0ba7..7e8ce27 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -236,8 +236,10 @@ Datum as_standardize(PG_FUNCTION_ARGS)
 #endif
     DBG("back from std_standardize");
 
-    if ( err_msg != NULL )
+    if ( err_msg != NULL ) {
         DBG("std_standardize threw an error: %s", err_msg);
+        free(err_msg);
+    }
 
     values = (char **) palloc(17 * sizeof(char *));
     for (k=0; k<17; k++) {
@@ -354,8 +356,10 @@ Datum as_parse(PG_FUNCTION_ARGS)
 #endif
         DBG("back from std_parse_address, nrec=%d", nrec);
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_parse_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -494,8 +498,10 @@ Datum as_match(PG_FUNCTION_ARGS)
         tokens = std_match_address(address, grammar, lexicon, locale, filter, &nrec, &err_msg);
         DBG("back from std_match_address");
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_match_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
-- 
2.43.0


From 56347574034d79cd0d36de753d89bc1fcec437ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 16/29] fix: unaccentUTF8 releases its transliterator

---
 src/utils.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 209e5b7..5ca584d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -11,6 +11,8 @@
  *
  ***************************************************ADDRESS_STANDARDIZER**/
 
+#include <memory>
+
 #include "utils.h"
 
 std::map<std::string, unsigned long int> Utils::counts_;
@@ -48,9 +50,11 @@ std::string Utils::unaccentUTF8( const std::string &str ) {
 
     // Transliterate UTF-16 UnicodeString
     UErrorCode status = U_ZERO_ERROR;
-    icu::Transliterator *accentsConverter = icu::Transliterator::createInstance(
-        "NFD; [:M:] Remove; NFC", UTRANS_FORWARD, status);
-    accentsConverter->transliterate(source);
+    std::unique_ptr<icu::Transliterator> accentsConverter(
+        icu::Transliterator::createInstance(
+            "NFD; [:M:] Remove; NFC", UTRANS_FORWARD, status));
+    if ( accentsConverter )
+        accentsConverter->transliterate(source);
     // TODO: handle errors with status
 
     // UTF-16 UnicodeString -> UTF-8 std::string
-- 
2.43.0


From d0c6dab3df29bd1cc67c63a92335040006139725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 17/29] fix: free the error text of a lexicon that could not be
 compiled

---
 src/address_standardizer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 7e8ce27..f4c8e04 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -121,8 +121,11 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
     DBG("lexicon:\n '%s'", lexicon);
 
     cstr = serialize_lexicon( lexicon, &err_msg );
-    if ( err_msg != NULL )
-        elog(ERROR, "std_standardize threw an error: %s", err_msg);
+    if ( err_msg != NULL ) {
+        pstr = pstrdup(err_msg);
+        free(err_msg);
+        elog(ERROR, "std_standardize threw an error: %s", pstr);
+    }
 
     if (cstr) {
         pstr = pstrdup(cstr);
-- 
2.43.0


From 43a4a45e0c7fc06e1b72228fc21e3a6fd08098d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 18/29] fix: free the row block of an address without tokens

---
 src/address_standardizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index f4c8e04..df9865c 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -88,7 +88,7 @@ void tokens_free(TOKENS *tokens, int nrec)
 {
     int i;
 
-    if ( nrec < 1 || ! tokens ) return;
+    if ( ! tokens ) return;
     for ( i=0; i<nrec; ++i ) {
         if ( tokens[i].word ) free( tokens[i].word );
         if ( tokens[i].inclass ) free( tokens[i].inclass );
-- 
2.43.0


From 046833661bef06d7c5f048c52040b2b7b6d170d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 19/29] fix: free the rows of an abandoned as_parse or as_match
 scan

---
 src/address_standardizer.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index df9865c..4696b53 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -364,6 +364,20 @@ Datum as_parse(PG_FUNCTION_ARGS)
             free(err_msg);
         }
 
+        // keep the rows in the context of the scan, it may be abandoned
+        if ( tokens ) {
+            TOKENS *rows = palloc((Size) nrec * sizeof(TOKENS));
+            int i;
+            for (i=0; i<nrec; i++) {
+                rows[i] = tokens[i];
+                rows[i].word     = pstrdup(tokens[i].word);
+                rows[i].inclass  = pstrdup(tokens[i].inclass);
+                rows[i].attached = pstrdup(tokens[i].attached);
+            }
+            tokens_free(tokens, nrec);
+            tokens = rows;
+        }
+
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
             elog(ERROR, "as_parse() was called in a way that cannot accept record as a result");
@@ -428,8 +442,6 @@ Datum as_parse(PG_FUNCTION_ARGS)
     }
     else    // do when there is no more left
     {
-        DBG("Going to free tokens");
-        tokens_free(tokens, (int) max_calls);
         SRF_RETURN_DONE(funcctx);
     }
 }
@@ -506,6 +518,18 @@ Datum as_match(PG_FUNCTION_ARGS)
             free(err_msg);
         }
 
+        // keep the rows in the context of the scan, it may be abandoned
+        if ( tokens ) {
+            MTOKEN *rows = palloc((Size) nrec * sizeof(MTOKEN));
+            for (i=0; i<nrec; i++) {
+                rows[i] = tokens[i];
+                rows[i].tokens = pstrdup(tokens[i].tokens);
+                free(tokens[i].tokens);
+            }
+            free(tokens);
+            tokens = rows;
+        }
+
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
             elog(ERROR, "as_match_address() was called in a way that cannot accept record as a result");
@@ -559,11 +583,6 @@ Datum as_match(PG_FUNCTION_ARGS)
     }
     else    // do when there is no more left
     {
-        DBG("Going to free tokens");
-        for (i=0; i<(int) max_calls; i++)
-            free(tokens[i].tokens);
-        free(tokens);
-
         SRF_RETURN_DONE(funcctx);
     }
 }
-- 
2.43.0


From 33870e7cfc920865002bb115df9d4e715e1f3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 20/29] fix: report memory exhaustion while splitting a line
 instead of looping or dropping fields

---
 src/inclass.cpp  | 2 ++
 src/lexentry.cpp | 1 +
 src/lexicon.cpp  | 1 +
 src/rule.cpp     | 1 +
 src/token.cpp    | 1 +
 5 files changed, 6 insertions(+)

diff --git a/src/inclass.cpp b/src/inclass.cpp
index 68c351d..9ccd871 100644
--- a/src/inclass.cpp
+++ b/src/inclass.cpp
@@ -120,6 +120,7 @@ std::set<InClass::Type> InClass::asType(const std::string &s) {
     InClass::Type t;
     std::set<InClass::Type> ret;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
@@ -535,6 +536,7 @@ InClass::Lang InClass::asLang(const std::string &s) {
 std::set<InClass::AttachType> InClass::asAttachType(const std::string &s) {
     std::set<InClass::AttachType> type;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
diff --git a/src/lexentry.cpp b/src/lexentry.cpp
index 56a787a..d58f9ca 100644
--- a/src/lexentry.cpp
+++ b/src/lexentry.cpp
@@ -123,6 +123,7 @@ LexEntry::LexEntry(const std::string &line)
     std::string in_attached;
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
     std::getline(buffer, in_word, '\t');
     if (in_word == "LEXENTRY:")
         std::getline(buffer, in_word, '\t');
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 7df38d1..5bd554f 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -104,6 +104,7 @@ void Lexicon::initialize( std::istream &is ) {
     //std::cout << "\t" << line << "\n";
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
     std::string term;
     std::getline(buffer, term, '\t');
     ++cnt;
diff --git a/src/rule.cpp b/src/rule.cpp
index a5ab5e3..6fbb38e 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -21,6 +21,7 @@
 Rule::Rule( const std::string &line ) : score_(0.0) {
     std::string token;
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
 
     // else read normal rule here
     int state = 0;
diff --git a/src/token.cpp b/src/token.cpp
index b418e99..14ef0c5 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -33,6 +33,7 @@ Token::Token(std::string text) {
     std::string in_attached;
 
     std::stringstream buffer(text);
+    buffer.exceptions( std::ios::badbit );
     std::getline(buffer, in_word, '\t');
     if (in_word == "TOKEN:")
         std::getline(buffer, in_word, '\t');
-- 
2.43.0


From 0e7ff386dcea6ee0a2d31e70abcb0cbcc6c87f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 21/29] fix: free a trie branch that could not be completed

---
 src/trie.cpp     | 5 +++--
 src/trie.h       | 1 +
 src/trieutf8.cpp | 5 +++--
 src/trieutf8.h   | 1 +
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index 827ae74..85c3e64 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -33,9 +33,10 @@ void Trie::addWord( std::string word ) {
             else
                 _children[ word[0] ]->addWord( subword );
         } else {
-            Trie *tmp = new Trie( word.size() == 1 );
+            std::unique_ptr<Trie> tmp( new Trie( word.size() == 1 ) );
             tmp->addWord( subword );
-            _children[ word[0] ] = tmp;
+            _children[ word[0] ] = tmp.get();
+            tmp.release();
         }
     }
 }
diff --git a/src/trie.h b/src/trie.h
index e6533b8..7ac5658 100644
--- a/src/trie.h
+++ b/src/trie.h
@@ -18,6 +18,7 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <memory>
 #include <set>
 #include <vector>
 #include <string>
diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index f7c8853..5e4ac2d 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -36,9 +36,10 @@ void TrieUtf8::addWord( const std::string &word ) {
                 _children[ c ]->addWord( subword );
         }
         else {
-            TrieUtf8 *tmp = new TrieUtf8( it == end );
+            std::unique_ptr<TrieUtf8> tmp( new TrieUtf8( it == end ) );
             tmp->addWord( subword );
-            _children[ c ] = tmp;
+            _children[ c ] = tmp.get();
+            tmp.release();
         }
     }
 }
diff --git a/src/trieutf8.h b/src/trieutf8.h
index 985f402..5c48dcf 100644
--- a/src/trieutf8.h
+++ b/src/trieutf8.h
@@ -18,6 +18,7 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <memory>
 #include <set>
 #include <vector>
 #include <string>
-- 
2.43.0


From 1c716327e94d3f128ec9957946861ff6fba84960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 22/29] fix: refuse a lexicon or grammar whose text could not
 be read to its end

---
 src/grammar.cpp | 4 ++++
 src/lexicon.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index f6ad6ea..fc8422a 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -135,6 +135,10 @@ void Grammar::initialize( std::istream &is )
             }
         }
     }
+    // a line that could not be read must not end the grammar early
+    if ( is.bad() )
+        throw std::runtime_error("Grammar-Read-Error");
+
     // save the last section we read in
     if (gotSection.length() > 0) {
         if ( ruleType == ISMETA ) {
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 5bd554f..fde1779 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -153,6 +153,10 @@ void Lexicon::initialize( std::istream &is ) {
         }
     }
 
+    // a line that could not be read must not end the lexicon early
+    if ( is.bad() )
+        throw std::runtime_error("Lexicon-Read-Error");
+
     md5_ = md5( lexicon_in );
 }
 
-- 
2.43.0


From b48e9ef6e9e147254c548e97fb1ae837602ee371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 23/29] fix: free the rows of a parse that could not be
 completed

---
 src/as_wrapper.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 34e337d..810469b 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -373,6 +373,17 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
             return NULL;
         }
 
+        // frees the rows if they can not be completed
+        auto freeTokens = [cnt]( TOKENS *t ) {
+            for ( long unsigned int n=0; n<cnt; ++n ) {
+                free( t[n].word );
+                free( t[n].inclass );
+                free( t[n].attached );
+            }
+            free( t );
+        };
+        std::unique_ptr<TOKENS, decltype(freeTokens)> guard( tokens, freeTokens );
+
         int i = 0;
         int j = 0;
         int k = 0;
@@ -391,7 +402,7 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
 
         *nrec = static_cast<int>( cnt );
         *err_msg = (char *)0;
-        return tokens;
+        return guard.release();
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
-- 
2.43.0


From c0fd77d642fb2fe2aa85c8e391a18e511f2c43c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 24/29] fix: MD5 round functions F and G

---
 src/md5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md5.cpp b/src/md5.cpp
index 65153e0..6587fa1 100644
--- a/src/md5.cpp
+++ b/src/md5.cpp
@@ -60,11 +60,11 @@ documentation and/or software.
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & y ) | ~x ) & z;
+    return ( x & y ) | ( ~x & z );
 }
 
 inline MD5::uint4 MD5::G( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & z ) | y ) & ~z;
+    return ( x & z ) | ( y & ~z );
 }
 
 inline MD5::uint4 MD5::H( uint4 x, uint4 y, uint4 z ) {
-- 
2.43.0


From adb88169ae2fb7579f7217d3bc8cdaca4d5b5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 25/29] fix: Trie::quoteChar added a number to a pointer; quote
 ^ { } too

---
 src/trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index 85c3e64..f9bc749 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -107,12 +107,12 @@ void Trie::getWordsStartingWith( std::string prefix, WordSet &words, std::string
 
 
 std::string Trie::quoteChar( const char c ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~^$()[]{}\\|?" );
     auto found = special.find_first_of( c );
     if ( found == std::string::npos )
         return std::string( 1, c );
     else
-        return "\\" + c;
+        return std::string( "\\" ) + c;
 }
 
 
-- 
2.43.0


From 56a3bac8afea85c9bf2e62cfad0bf260c40a1a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 26/29] fix: compare-lexicon kept all entries under one key

---
 tools/compare-lexicon | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/compare-lexicon b/tools/compare-lexicon
index 65c0ebc..6411c5f 100755
--- a/tools/compare-lexicon
+++ b/tools/compare-lexicon
@@ -30,7 +30,7 @@ while ( my $line = <LEX> ) {
         my @fields = split(/\t/, $line);
         shift @fields if $fields[0] eq 'LEXENTRY:';
         my $key = shift @fields;
-        push @{$a{key}}, \@fields;
+        push @{$a{$key}}, \@fields;
     }
     else {
         die "ERROR: logic error processing '$fa'!\n";
@@ -57,7 +57,7 @@ while ( my $line = <LEX> ) {
         my @fields = split(/\t/, $line);
         shift @fields if $fields[0] eq 'LEXENTRY:';
         my $key = shift @fields;
-        if ( ! defined $a{key} ) {
+        if ( ! defined $a{$key} ) {
             print "$line\n";
         }
     }
-- 
2.43.0


From c1fc7a38d32a05ebb00dd00a95d43016dba25e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 27/29] fix: convert-pagc-lex-gaz read the standard word as an
 expression

---
 tools/convert-pagc-lex-gaz | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/convert-pagc-lex-gaz b/tools/convert-pagc-lex-gaz
index 9b52659..1a31e80 100755
--- a/tools/convert-pagc-lex-gaz
+++ b/tools/convert-pagc-lex-gaz
@@ -41,7 +41,7 @@ sub readfile {
             $lexi{$key} = [$f[1], $f[3], [$types[$f[2]]]];
         }
         else {
-            if ($lexi{$key}[1] =~ /^$f[3]$/i) {
+            if ($lexi{$key}[1] =~ /^\Q$f[3]\E$/i) {
                 push @{$lexi{$key}[2]}, $types[$f[2]];
             }
             else {
-- 
2.43.0


From 72bb794695428731560401cbba343e15bd403add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 28/29] fix: out of memory inside ICU was taken for an empty or
 ERROR text

---
 src/utils.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 5ca584d..95ae4c2 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -12,6 +12,7 @@
  ***************************************************ADDRESS_STANDARDIZER**/
 
 #include <memory>
+#include <new>
 
 #include "utils.h"
 
@@ -56,6 +57,8 @@ std::string Utils::unaccentUTF8( const std::string &str ) {
     if ( accentsConverter )
         accentsConverter->transliterate(source);
     // TODO: handle errors with status
+    if ( source.isBogus() or status == U_MEMORY_ALLOCATION_ERROR )
+        throw std::bad_alloc();
 
     // UTF-16 UnicodeString -> UTF-8 std::string
     std::string result;
@@ -74,6 +77,10 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
     // uppercase
     source.toUpper(locale);
 
+    // ICU marks a string bogus when it could not get the memory for it
+    if ( source.isBogus() )
+        throw std::bad_alloc();
+
     // UTF-16 UnicodeString -> UTF-8 std::string
     std::string result;
     source.toUTF8String(result);
@@ -98,7 +105,11 @@ std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode)
     errorCode = U_ZERO_ERROR;
 
     // normalize the string
+    if ( source.isBogus() )
+        throw std::bad_alloc();
     source = norm.normalize(source, errorCode);
+    if ( source.isBogus() or errorCode == U_MEMORY_ALLOCATION_ERROR )
+        throw std::bad_alloc();
     if ( U_FAILURE(errorCode) )
         return result;
 
-- 
2.43.0


From 44162490dffa0d61b3ee84d3221c7582ac3ec389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 29/29] fix: texts of the C API's results could be missing when
 out of memory

---
 src/as_wrapper.cpp | 80 +++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 810469b..4e69da0 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -36,6 +36,16 @@
 #include "address_standardizer.h"
 
 
+// a text for the C side, which frees it
+static char *copyText( const std::string &text )
+{
+    char *copy = strdup( text.c_str() );
+    if ( ! copy )
+        throw std::bad_alloc();
+    return copy;
+}
+
+
 STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char *locale_in, char *filter_in, char **err_msg);
 
 
@@ -199,74 +209,84 @@ STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexico
                 *err_msg = strdup( "Out of memory!" );
                 return NULL;
             }
+            // frees the structure if it can not be completed
+            auto freeStdaddr = []( STDADDR *a ) {
+                for ( char *text : { a->building, a->house_num, a->predir, a->qual, a->pretype, a->name,
+                                     a->suftype, a->sufdir, a->ruralroute, a->extra, a->city, a->prov,
+                                     a->country, a->postcode, a->box, a->unit, a->pattern } )
+                    free( text );
+                free( a );
+            };
+            std::unique_ptr<STDADDR, decltype(freeStdaddr)> guard( stdaddr, freeStdaddr );
+
             // assign strings with content and trim off the trailing blank
             if ( v_stdaddr[0].size() > 0 ) {
                 v_stdaddr[0].resize(v_stdaddr[0].size()-1);
-                stdaddr->building   = strdup( v_stdaddr[0].c_str() );
+                stdaddr->building   = copyText( v_stdaddr[0] );
             }
             if ( v_stdaddr[1].size() > 0 ) {
                  v_stdaddr[1].resize(v_stdaddr[1].size()-1);
-                stdaddr->house_num  = strdup( v_stdaddr[1].c_str() );
+                stdaddr->house_num  = copyText( v_stdaddr[1] );
             }
             if ( v_stdaddr[2].size() > 0 ) {
                 v_stdaddr[2].resize(v_stdaddr[2].size()-1);
-                stdaddr->predir     = strdup( v_stdaddr[2].c_str() );
+                stdaddr->predir     = copyText( v_stdaddr[2] );
             }
             if ( v_stdaddr[3].size() > 0 ) {
                 v_stdaddr[3].resize(v_stdaddr[3].size()-1);
-                stdaddr->qual       = strdup( v_stdaddr[3].c_str() );
+                stdaddr->qual       = copyText( v_stdaddr[3] );
             }
             if ( v_stdaddr[4].size() > 0 ) {
                 v_stdaddr[4].resize(v_stdaddr[4].size()-1);
-                stdaddr->pretype    = strdup( v_stdaddr[4].c_str() );
+                stdaddr->pretype    = copyText( v_stdaddr[4] );
             }
             if ( v_stdaddr[5].size() > 0 ) {
                 v_stdaddr[5].resize(v_stdaddr[5].size()-1);
-                stdaddr->name       = strdup( v_stdaddr[5].c_str() );
+                stdaddr->name       = copyText( v_stdaddr[5] );
             }
             if ( v_stdaddr[6].size() > 0 ) {
                 v_stdaddr[6].resize(v_stdaddr[6].size()-1);
-                stdaddr->suftype    = strdup( v_stdaddr[6].c_str() );
+                stdaddr->suftype    = copyText( v_stdaddr[6] );
             }
             if ( v_stdaddr[7].size() > 0 ) {
                 v_stdaddr[7].resize(v_stdaddr[7].size()-1);
-                stdaddr->sufdir     = strdup( v_stdaddr[7].c_str() );
+                stdaddr->sufdir     = copyText( v_stdaddr[7] );
             }
             if ( v_stdaddr[8].size() > 0 ) {
                 v_stdaddr[8].resize(v_stdaddr[8].size()-1);
-                stdaddr->ruralroute = strdup( v_stdaddr[8].c_str() );
+                stdaddr->ruralroute = copyText( v_stdaddr[8] );
             }
             if ( v_stdaddr[9].size() > 0 ) {
                 v_stdaddr[9].resize(v_stdaddr[9].size()-1);
-                stdaddr->extra      = strdup( v_stdaddr[9].c_str() );
+                stdaddr->extra      = copyText( v_stdaddr[9] );
             }
             if ( v_stdaddr[10].size() > 0 ) {
                 v_stdaddr[10].resize(v_stdaddr[10].size()-1);
-                stdaddr->city       = strdup( v_stdaddr[10].c_str() );
+                stdaddr->city       = copyText( v_stdaddr[10] );
             }
             if ( v_stdaddr[11].size() > 0 ) {
                 v_stdaddr[11].resize(v_stdaddr[11].size()-1);
-                stdaddr->prov       = strdup( v_stdaddr[11].c_str() );
+                stdaddr->prov       = copyText( v_stdaddr[11] );
             }
             if ( v_stdaddr[12].size() > 0 ) {
                 v_stdaddr[12].resize(v_stdaddr[12].size()-1);
-                stdaddr->country    = strdup( v_stdaddr[12].c_str() );
+                stdaddr->country    = copyText( v_stdaddr[12] );
             }
             if ( v_stdaddr[13].size() > 0 ) {
                 v_stdaddr[13].resize(v_stdaddr[13].size()-1);
-                stdaddr->postcode   = strdup( v_stdaddr[13].c_str() );
+                stdaddr->postcode   = copyText( v_stdaddr[13] );
             }
             if ( v_stdaddr[14].size() > 0 ) {
                 v_stdaddr[14].resize(v_stdaddr[14].size()-1);
-                stdaddr->box        = strdup( v_stdaddr[14].c_str() );
+                stdaddr->box        = copyText( v_stdaddr[14] );
             }
             if ( v_stdaddr[15].size() > 0 ) {
                 v_stdaddr[15].resize(v_stdaddr[15].size()-1);
-                stdaddr->unit       = strdup( v_stdaddr[15].c_str() );
+                stdaddr->unit       = copyText( v_stdaddr[15] );
             }
-            stdaddr->pattern        = strdup( matched.c_str() );
+            stdaddr->pattern        = copyText( matched );
             *err_msg = (char *)0;
-            return stdaddr;
+            return guard.release();
         }
         // we failed to match
         *err_msg = (char *)0;
@@ -391,9 +411,9 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
             for ( const auto &t : phrase ) {
                 tokens[k].pat = i;
                 tokens[k].seq = j;
-                tokens[k].word = strdup( t.text().c_str() );
-                tokens[k].inclass = strdup( InClass::asString( t.inclass() ).c_str() );
-                tokens[k].attached = strdup( InClass::asString( t.attached() ).c_str() );
+                tokens[k].word = copyText( t.text() );
+                tokens[k].inclass = copyText( InClass::asString( t.inclass() ) );
+                tokens[k].attached = copyText( InClass::asString( t.attached() ) );
                 ++j;
                 ++k;
             }
@@ -509,17 +529,26 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
             return NULL;
         }
 
+        // frees the rows if they can not be completed
+        long unsigned int cnt = toks.size();
+        auto freeTokens = [cnt]( MTOKEN *t ) {
+            for ( long unsigned int n=0; n<cnt; ++n )
+                free( t[n].tokens );
+            free( t );
+        };
+        std::unique_ptr<MTOKEN, decltype(freeTokens)> guard( tokens, freeTokens );
+
         int i = 0;
         for ( const auto &t : toks ) {
-            tokens[i].tokens = strdup( t.matched.c_str() );
+            tokens[i].tokens = copyText( t.matched );
             tokens[i].score = t.score;
             tokens[i].nrules = t.nrules;
             ++i;
         }
 
-        *nrec = static_cast<int>( toks.size() );
+        *nrec = static_cast<int>( cnt );
         *err_msg = (char *)0;
-        return tokens;
+        return guard.release();
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
@@ -678,8 +707,9 @@ char * serialize_lexicon( char *lexicon_in, char **err_msg )
             return NULL;
         }
 
+        char *text = copyText( clex );
         *err_msg = (char *)0;
-        return strdup(clex.c_str());
+        return text;
 
     }
     catch ( std::runtime_error &e ) {
-- 
2.43.0

