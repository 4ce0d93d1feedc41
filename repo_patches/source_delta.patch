From 3244e30dd205e8375cf2138621aa1b0f1afa3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 01/56] fix: tokenizer: an empty comment ends at the end of its
 line, a comment may end the text

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..221a4fa 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -208,7 +208,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != std::string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From 78a32ce2c647aeaaa7a6f5f9e374a4fab97d1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 02/56] fix: tokenizer: a quote mark or string behind a symbol
 does not swallow the symbol

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 221a4fa..446d4c4 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -123,7 +123,11 @@ namespace CppLisp
 				}
 				else
 				{
-					if (code[i + 1] == '@')
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
+					if (ch == ',' && i + 1 < code.Length() && code[i + 1] == '@')
 					{
 						// process unquotesplicing
 						string s = string::Empty;
@@ -152,6 +156,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					// start string
 					isInString = true;
 					currentToken = string::Empty;
-- 
2.43.0


From 3b9ab6b46126ee1d803de810a137ca4816a0f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 03/56] fix: tokenizer: a semicolon in a string does not count
 as a line

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 446d4c4..5823252 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -102,18 +102,17 @@ namespace CppLisp
 				{
 					currentToken += ch;
 				}
-				else if (isInSymbol)
-				{
-					addToken(currentToken, i, lineCount);
-					i = ProcessComment(code, i, lineCount, ch, addToken);
-				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From 48a544e6008f61b4410a88f9854d435c8baf58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 04/56] fix: tokenizer: an escaped character outside of a
 string belongs to a symbol

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 5823252..d8f4454 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -71,6 +71,10 @@ namespace CppLisp
 			{
 				if (wasLastBackslash)
 				{
+					if (!isInString)
+					{
+						isInSymbol = true;
+					}
 					currentToken += ch;
 					wasLastBackslash = false;
 				}
@@ -146,6 +150,10 @@ namespace CppLisp
 			{
 				if (wasLastBackslash)
 				{
+					if (!isInString)
+					{
+						isInSymbol = true;
+					}
 					currentToken += ch;
 				}
 				else if (isInString)
-- 
2.43.0


From a0adc7f4c995f4a79073265f47df4147fbda25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 05/56] fix: token: a number literal out of range does not
 abort

---
 CppLisp/CppLispInterpreter/Token.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..7d521bd 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -54,6 +54,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
@@ -72,6 +76,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From e32695894e7ac378242caa6ef456aabece98a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 06/56] fix: parser: unbalanced, cut or empty programs are
 language errors

---
 CppLisp/CppLispInterpreter/Parser.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..056738c 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -72,6 +72,10 @@ namespace CppLisp
 			else if (token->Type == LispTokenType::ListEnd)
 			{
 				var temp = current;
+				if (listStack.empty())
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				listStack.pop();
 				if (listStack.size() > 0)
 				{
@@ -141,14 +145,12 @@ namespace CppLisp
 			}
 		}
 
-		if (isToplevel && tokens.size()>0)
+		std::shared_ptr<LispToken> lastToken = null;
+		if (tokens.size()>0)
 		{
-			std::shared_ptr<LispToken> token = tokens.back/*Last*/();
-			throw LispException(BracketsOutOfBalance, token, moduleName);
+			lastToken = tokens.back/*Last*/();
 		}
-
-		parseResult = std::make_shared<object>(*current);
-		return i;
+		throw LispException(BracketsOutOfBalance, lastToken, moduleName);
 	}
 
 	bool LispParser::OnlyCommentTokensFrom(const std::vector<std::shared_ptr<LispToken>> & tokens, size_t i)
-- 
2.43.0


From 9bd00bca06ef0fd91bedc480be3f818826102fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 07/56] fix: parser: a quote mark directly behind a quote mark
 quotes the following expression

---
 CppLisp/CppLispInterpreter/Parser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 056738c..d40f03f 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -105,6 +105,15 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (isToplevel)
+				{
+					throw LispException(UnexpectedToken, token, moduleName);
+				}
+				else
+				{
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
@@ -120,6 +129,10 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(*unquote));
 				}
+				else if (isToplevel)
+				{
+					throw LispException(UnexpectedToken, token, moduleName);
+				}
 				else
 				{
 					parseResult = std::make_shared<object>(*unquote);
-- 
2.43.0


From 4f288b517b1db900648dd21117af1abd56d7e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 08/56] fix: integer arithmetic wraps around and reports a
 division by zero instead of trapping

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/Variant.cpp     | 32 ++++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..a36186f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -897,7 +897,7 @@ static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_pt
 		var value = (LispVariant)args[0];
 		if (value.IsInt())
 		{
-			return std::make_shared<LispVariant>(std::make_shared<object>(-value.IntValue()));
+			return std::make_shared<LispVariant>(std::make_shared<object>((int)(0u - (unsigned int)value.IntValue())));
 		}
 		if (value.IsDouble())
 		{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..6941de3 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -364,6 +364,13 @@ namespace CppLisp
 		list->Add(value);
 	}
 
+	static LispException CreateDivisionByZeroException(const LispVariant & l)
+	{
+		var exception = /*new*/ LispException("Division by zero", 0);
+		exception.AddTokenInfos(l.Token);
+		return exception;
+	}
+
 	LispVariant LispVariant::operator+(const LispVariant & r)
 	{
 		if (IsString() || r.IsString())
@@ -376,7 +383,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() + r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() + (unsigned int)r.ToInt())));
 		}
 		if (IsList() && r.IsList())
 		{
@@ -396,7 +403,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() - r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() - (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("-", *this, r);
 	}
@@ -409,7 +416,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() * r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() * (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("*", *this, r);
 	}
@@ -422,7 +429,17 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw CreateDivisionByZeroException(*this);
+			}
+			if (divisor == -1)
+			{
+				// avoid the trap for the smallest integer value
+				return /*new*/ LispVariant(std::make_shared<object>((int)(0u - (unsigned int)ToInt())));
+			}
+			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / divisor));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +452,12 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw CreateDivisionByZeroException(*this);
+			}
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : ToInt() % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
-- 
2.43.0


From 9f2c6e30c6e0eeb922af4577008c60a7ae601870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 09/56] fix: arithmetic without arguments is a language error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index a36186f..2852303 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -864,6 +864,11 @@ static std::shared_ptr<LispVariant> UpperCase(const std::vector<std::shared_ptr<
 
 static std::shared_ptr<LispVariant> ArithmetricOperation(const std::vector<std::shared_ptr<object>> & args, std::function<std::shared_ptr<LispVariant>(std::shared_ptr<LispVariant>, std::shared_ptr<LispVariant>)> op)
 {
+	if (args.size() == 0)
+	{
+		throw LispExceptionBase("Bad argument count in arithmetic operation, has 0 expected at least 1");
+	}
+
 	std::shared_ptr<LispVariant> result(null);
 	for (var elem : args)
 	{
-- 
2.43.0


From 02925c9b7a716c5d7223e8cf3c07b1882c35443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 10/56] fix: a captured variable is not hidden by a global one
 of the same name

---
 CppLisp/CppLispInterpreter/Scope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..f083708 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -102,17 +102,17 @@ namespace CppLisp
 			result = item->second;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in global scope
-		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
+		// then try to resolve in closure chain scope(s)
+		else if (IsInClosureChain(name, foundClosureScope, &value))
 		{
-			//result = (*GlobalScope)[name];
+			//result = (*foundClosureScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in closure chain scope(s)
-		else if (IsInClosureChain(name, foundClosureScope, &value))
+		// then try to resolve in global scope
+		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
 		{
-			//result = (*foundClosureScope)[name];
+			//result = (*GlobalScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-- 
2.43.0


From a98fd250e5087fda7d11f8ea8f6571212fe7b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 11/56] fix: string positions behind the end give an empty
 string instead of an abort

---
 CppLisp/CppLispInterpreter/csstring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..312a7cc 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -139,7 +139,8 @@ namespace CppLisp
 
 		inline string Substring(size_t offs, size_t length = npos) const
 		{
-			return string(substr(offs, length));
+			// a position behind the end of the string gives an empty string
+			return offs <= size() ? string(substr(offs, length)) : string();
 		}
 
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
-- 
2.43.0


From 4ab4390ff3a75424de3a1e3829eb1487662cbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 12/56] fix: a limited search does not read behind the search
 text

---
 CppLisp/CppLispInterpreter/csstring.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 312a7cc..25107bb 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -161,7 +161,9 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			// count is the number of characters to search in, starting at offset
+			size_t pos = find(txt, offset);
+			return pos != npos && pos - offset + txt.size() <= count ? pos : npos;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From 5fb67080ec0890eb762cb80e614ffd0365b563b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 13/56] fix: splitting skips the whole separator

---
 CppLisp/CppLispInterpreter/csstring.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..ea0fc1e 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -96,16 +96,17 @@ namespace CppLisp
 		std::vector<string> output;
 
 		std::string::size_type prev_pos = 0, pos = 0;
-		while ((pos = s.find(seperator, pos)) != std::string::npos)
+		while (!seperator.empty() && (pos = s.find(seperator, pos)) != std::string::npos)
 		{
 			std::string substring(s.substr(prev_pos, pos - prev_pos));
 
 			output.push_back(substring);
 
-			prev_pos = ++pos;
+			pos += seperator.size();
+			prev_pos = pos;
 		}
 
-		output.push_back(s.substr(prev_pos, pos - prev_pos)); // Last word
+		output.push_back(s.substr(prev_pos)); // Last word
 
 		return output;
 	}
-- 
2.43.0


From 2935b005d90ae331e7d4fc87cd4cd092e75be281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 14/56] fix: string comparison and replacement do not stop at a
 zero character

---
 CppLisp/CppLispInterpreter/csstring.cpp | 2 +-
 CppLisp/CppLispInterpreter/csstring.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index ea0fc1e..b9d3283 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -221,6 +221,6 @@ namespace CppLisp
 
     int string::CompareOrdinal(const string & a, const string & b)
 	{
-		return strcmp(a.c_str(), b.c_str());
+		return a.compare(b);
 	}
 }
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 25107bb..95b0518 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -146,7 +146,7 @@ namespace CppLisp
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
 			std::string s = *this;
-			return do_replace(s, searchTxt.c_str(), replaceTxt.c_str());
+			return do_replace(s, searchTxt, replaceTxt);
 		}
 		
 		inline size_t IndexOf(const string & txt, const string & /*arg*//*StringComparison.InvariantCulture*/) const
-- 
2.43.0


From 880f7ea4bf8c376b345ab918ce62d02f7f497b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 15/56] fix: a format item inserts its argument verbatim and an
 invalid one does not abort

---
 CppLisp/CppLispInterpreter/csstring.cpp | 128 ++++++++----------------
 CppLisp/CppLispInterpreter/csstring.h   |   2 -
 2 files changed, 42 insertions(+), 88 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index b9d3283..4eda401 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -116,109 +116,65 @@ namespace CppLisp
 		return txt.size() == 0;
 	}
 
-	string string::ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found)
+	// returns the position of the closing bracket of a format item {n} or {n,width} starting at pos, 
+	// or npos if there is no format item at this position
+	static size_t FindEndOfFormatItem(const string & txt, size_t pos, int & width)
 	{
-		auto pos = temp.find(findText);
-		string ret = temp;
-		if (pos != std::string::npos)
+		width = 0;
+		if (pos + 2 >= txt.size() || txt[pos] != '{' || txt[pos + 1] < '0' || txt[pos + 1] > '4')
 		{
-			ret = ret.replace(pos, findText.size(), arg);
-			found = true;
+			return string::npos;
 		}
-		else
+		if (txt[pos + 2] == '}')
 		{
-			found = false;
+			return pos + 2;
 		}
-		return ret;
+		size_t end = txt.find('}', pos + 2);
+		if (txt[pos + 2] != ',' || end == string::npos)
+		{
+			return string::npos;
+		}
+		const string number = txt.Substring(pos + 3, end - pos - 3);
+		char * rest = 0;
+		long value = strtol(number.c_str(), &rest, 10);
+		if (rest == number.c_str() || *rest != 0 || value > 0xffff || value < -0xffff)
+		{
+			return string::npos;
+		}
+		width = (int)value;
+		return end;
 	}
 
-	string string::ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found)
+	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		found = false;
-		string ret = temp;
-		auto pos = ret.find(findText);
-		if (pos != std::string::npos)
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		string ret;
+		size_t i = 0;
+		while (i < txt.size())
 		{
-			auto pos2 = ret.find("}", pos + 1);
-			if (pos2 != std::string::npos)
+			int width = 0;
+			size_t end = FindEndOfFormatItem(txt, i, width);
+			if (end == npos)
 			{
-				string len = ret.substr(pos + 3, pos2 - pos - findText.size());
-				int l = std::stoi(len);
-				if (l > 0)
-				{
-					int count = l - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, std::string(count > 0 ? count : 0, ' ') + arg);
-					found = true;
-				}
-				else
+				ret += txt[i];
+				i++;
+			}
+			else
+			{
+				const string & arg = *(args[txt[i + 1] - '0']);
+				if (arg == NULL_STRING)
 				{
-					int count = abs(l) - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, arg + std::string(count > 0 ? count : 0, ' '));
-					found = true;
+					throw LispExceptionBase("Not enough items for format string: " + txt);
 				}
+				size_t len = (size_t)abs(width);
+				string fill(std::string(len > arg.size() ? len - arg.size() : 0, ' '));
+				ret += width > 0 ? fill + arg : arg + fill;
+				i = end + 1;
 			}
 		}
 		return ret;
 	}
 
-	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
-	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		return temp;
-	}
-
     int string::CompareOrdinal(const string & a, const string & b)
 	{
 		return a.compare(b);
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 95b0518..3ce2ffd 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -188,8 +188,6 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found);
-		static string ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found);
 		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
 		static int CompareOrdinal(const string & a, const string & b);
 
-- 
2.43.0


From 9551c86bdaab606d572cd5adab08c175642c90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 16/56] fix: lists are equal if their elements are equal, at
 any depth

---
 CppLisp/CppLispInterpreter/Variant.cpp | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 6941de3..8be7c7a 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -516,7 +516,20 @@ namespace CppLisp
 		}
 		if (l.IsList() && r.IsList())
 		{
-			return l.ListValueRef().SequenceEqual(r.ListValueRef());
+			const IEnumerable<std::shared_ptr<object>> & leftList = l.ListValueRef();
+			const IEnumerable<std::shared_ptr<object>> & rightList = r.ListValueRef();
+			if (leftList.Count() != rightList.Count())
+			{
+				return false;
+			}
+			for (size_t i = 0; i < leftList.Count(); i++)
+			{
+				if (LispVariant(leftList[i]) != LispVariant(rightList[i]))
+				{
+					return false;
+				}
+			}
+			return true;
 		}
 		if (l.IsUndefined() || r.IsUndefined())
 		{
@@ -805,7 +818,19 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
-		return *Value == *(r.Value);
+		bool bothNumeric = (IsNumber() || IsBool()) && (r.IsNumber() || r.IsBool());
+		if (!bothNumeric && !IsString() && !r.IsString())
+		{
+			if (Type != r.Type)
+			{
+				return false;
+			}
+			if (IsFunction() || IsLValue() || IsError())
+			{
+				return Value == r.Value;
+			}
+		}
+		return EqualOp(*this, r);
 	}
 
 	bool LispVariant::operator!=(const LispVariant & other) const
-- 
2.43.0


From cb7532cef272e737861e126f1a768e6023181d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 17/56] fix: an infinite number is equal to itself

---
 CppLisp/CppLispInterpreter/Variant.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 8be7c7a..df2d163 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -541,7 +541,10 @@ namespace CppLisp
 		}
 		if (l.IsDouble() || r.IsDouble())
 		{
-			return /*Math.A*/fabs(l.ToDouble() - r.ToDouble()) < Tolerance;
+			double left = l.ToDouble();
+			double right = r.ToDouble();
+			// infinite values are equal, but have no difference
+			return left == right || /*Math.A*/fabs(left - right) < Tolerance;
 		}
 		if (l.IsInt() || r.IsInt())
 		{
-- 
2.43.0


From cafba49b66c017a772016b68ccc01f898b1dd765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 18/56] fix: dictionary keys have a strict order, keys of
 different types can be mixed

---
 CppLisp/CppLispInterpreter/Variant.cpp | 20 ++++++++++++++++++++
 CppLisp/CppLispInterpreter/Variant.h   | 15 +++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index df2d163..5741d3a 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -553,6 +553,26 @@ namespace CppLisp
 		throw CreateInvalidOperationException("==", l, r);
 	}
 
+	bool LispVariant::KeyLess(const LispVariant & l, const LispVariant & r)
+	{
+		if (l.IsNumber() && r.IsNumber())
+		{
+			double left = l.ToDouble();
+			double right = r.ToDouble();
+			// not a number is the first one
+			return left < right || (left != left && right == right);
+		}
+		if (l.IsNumber() || r.IsNumber())
+		{
+			return r.IsNumber();
+		}
+		if (l.Type != r.Type)
+		{
+			return l.Type < r.Type;
+		}
+		return string::CompareOrdinal(l.ToString(), r.ToString()) < 0;
+	}
+
 	LispType LispVariant::TypeOf(std::shared_ptr<object> obj)
 	{
 		if (obj->IsInt())
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index bd97a65..65bff2f 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -383,6 +383,9 @@ namespace CppLisp
 
 		/*public*/ static bool EqualOp(const LispVariant & l, const LispVariant & r);
 
+		// strict order over all values, used for the keys of a dictionary
+		/*public*/ static bool KeyLess(const LispVariant & l, const LispVariant & r);
+
         //#endregion
 
     private:
@@ -408,4 +411,16 @@ namespace CppLisp
     }
 }
 
+namespace std
+{
+	template <>
+	struct less<CppLisp::LispVariant>
+	{
+		bool operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const
+		{
+			return CppLisp::LispVariant::KeyLess(l, r);
+		}
+	};
+}
+
 #endif
-- 
2.43.0


From c08a27d94f0ba91c0549640e84c047dfd0c85ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 19/56] fix: dictionary functions report an argument which is
 no dictionary

---
 CppLisp/CppLispInterpreter/Environment.cpp | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2852303..c463280 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -151,6 +151,16 @@ static std::shared_ptr<LispVariant> CheckForFunction(const string & functionName
 	return function;
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDictionary(const string & functionName, std::shared_ptr<object> arg0, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & value = arg0->ToLispVariantRef();
+	if (!value.IsNativeObject() || value.Value == null || !value.Value->IsDictionary())
+	{
+		throw LispException("No dictionary in " + functionName, scope.get());
+	}
+	return value.Value->ToDictionary();
+}
+
 static void CheckArgs(const string & name, size_t count, const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	if (count == (size_t)-1 || args.size() != count)
@@ -1397,7 +1407,7 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
 	dict[key] = value->Value;
@@ -1409,7 +1419,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-get", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
@@ -1420,7 +1430,7 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-remove", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var ok = dict.Remove(key);
 
@@ -1431,7 +1441,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-keys", args[0], scope);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1446,7 +1456,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-clean", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1456,7 +1466,7 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-contains-key", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key);
 
@@ -1467,7 +1477,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
 	var result = dict.ContainsValue(value->Value);
 
-- 
2.43.0


From fdcb963baa6818ece834c77a72165be744aedd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 20/56] fix: dictionary values and keys keep their type

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 CppLisp/CppLispInterpreter/Variant.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c463280..4edd5c5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1410,7 +1410,7 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	dict[key] = std::make_shared<object>(*value);
 
 	return value;
 }
@@ -1479,7 +1479,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 
 	Dictionary<LispVariant, std::shared_ptr<object>> & dict = CheckForDictionary("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var result = dict.ContainsValue(std::make_shared<object>(*value));
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 5741d3a..08140d0 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -787,7 +787,7 @@ namespace CppLisp
 					result += ", ";
 				}
 
-				result += "[" + GetNativeObjectStringRepresentation(element.first.Value) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
+				result += "[" + element.first.ToStringDebugger() + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
 			}
 
 			result = "{ " + result + " }";
-- 
2.43.0


From 0860730d260666ee471def15528c0391a04915db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 21/56] fix: an access outside of a list is a language error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 22 ++++++++++++++++++----
 CppLisp/CppLispInterpreter/cstypes.h       |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 4edd5c5..e5261c6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -161,6 +161,14 @@ static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDictionary(con
 	return value.Value->ToDictionary();
 }
 
+static void CheckListIndex(const string & functionName, int index, size_t count)
+{
+	if (index < 0 || (size_t)index >= count)
+	{
+		throw LispExceptionBase(string::Format("Index out of range in {0} (index={1} count={2})", functionName, std::to_string(index), std::to_string(count)));
+	}
+}
+
 static void CheckArgs(const string & name, size_t count, const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	if (count == (size_t)-1 || args.size() != count)
@@ -1120,6 +1128,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+				CheckListIndex("first", 0, container.Count());
 				container[0] = newValue;
 			};
 
@@ -1128,6 +1137,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
+		CheckListIndex("first", 0, elements.Count());
 		return std::make_shared<LispVariant>(elements.First());
 	}
 }
@@ -1150,6 +1160,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			CheckListIndex("last", (int)container.Count() - 1, container.Count());
 			container[container.Count()-1] = newValue;
 		};
 
@@ -1158,6 +1169,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
+		CheckListIndex("last", (int)elements.Count() - 1, elements.Count());
 		return std::make_shared<LispVariant>(elements.Last());
 	}
 }
@@ -1179,11 +1191,11 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 {
 	CheckArgs("nth", 2, args, scope);
 
-	var index = (size_t)args[0]->ToLispVariantRef().IntValue();
+	var index = args[0]->ToLispVariantRef().IntValue();
 	const LispVariant & val = args[1]->ToLispVariantRef();
 	if (val.IsString())
 	{
-		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring(index, 1)));
+		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring((size_t)index, 1)));
 	}
 	if (scope->NeedsLValue)
 	{
@@ -1194,6 +1206,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			CheckListIndex("nth", index, container.Count());
 			container[index] = newValue;
 		};
 
@@ -1202,6 +1215,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
+		CheckListIndex("nth", index, elements.Count());
 		return std::make_shared<LispVariant>(elements.ElementAt(index));
 	}
 }
@@ -1216,7 +1230,7 @@ static std::shared_ptr<LispVariant> Push(const std::vector<std::shared_ptr<objec
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
-		if (pos < (int)elements.Count())
+		if (pos >= 0 && pos < (int)elements.Count())
 		{
 			elements.Insert(pos, std::make_shared<object>(val));
 			return std::make_shared<LispVariant>(LispVariant(std::make_shared<object>(elements)));
@@ -1238,7 +1252,7 @@ static std::shared_ptr<LispVariant> Pop(const std::vector<std::shared_ptr<object
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
-		if (pos < (int)elements.Count())
+		if (pos >= 0 && pos < (int)elements.Count())
 		{
 			var elem = elements.ElementAt(pos);
 			elements.RemoveAt(pos);
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..5cc4b01 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -118,7 +118,7 @@ namespace CppLisp
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && temp.size() > 0; i++)
 			{
 				temp.erase(temp.begin());
 			}
-- 
2.43.0


From 6cddbafabedd6e476d138578446364a3a614528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 22/56] fix: map, reduce and apply hand over nested lists as
 values

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e5261c6..2b77474 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1035,7 +1035,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
@@ -1055,7 +1055,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
 		var x = *(function.Function(args, scope));
 		result = std::make_shared<LispVariant>(x);
@@ -1370,7 +1370,15 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 
 	if (arguments.IsList())
 	{
-		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
+		IEnumerable<std::shared_ptr<object>> argumentsArray = arguments.ListValueRef();
+		if (!fcn->FunctionValue().IsSpecialForm())
+		{
+			// the arguments are values, a list must not be evaluated again
+			for (size_t i = 0; i < argumentsArray.Count(); i++)
+			{
+				argumentsArray[i] = std::make_shared<object>(LispVariant(argumentsArray[i]));
+			}
+		}
 		var result = fcn->FunctionValue().Function(argumentsArray, scope);
 		return result;
 	}
-- 
2.43.0


From 0cc9fc922b6406dac35c8c6bd9ff396f09f778da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 23/56] fix: a value without number is converted to undefined,
 not to zero

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2b77474..ad6f307 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -756,7 +756,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1 : 0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -780,7 +780,7 @@ static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<ob
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1.0 : 0.0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 339121656905f77915e665b568b66f8073d4c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 24/56] fix: or evaluates its arguments until one is true

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ad6f307..561adc5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1524,7 +1524,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From 1be9ce8c86ac115ac4a9a916534fc2b22a18fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 25/56] fix: a shift uses the lower five bits of the shift
 count

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 561adc5..ce8af07 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -954,12 +954,12 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> (arg2.IntValue() & 31))); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 5c3ec6f58877fcec6147af725d09d0f805e1e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 26/56] fix: a failing function removes its scope and forwards
 the exception unchanged

---
 CppLisp/CppLispInterpreter/Environment.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ce8af07..61bc5ad 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1827,7 +1827,6 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		[name, moduleName, args, scope](const std::vector<std::shared_ptr<object>> & localArgs, std::shared_ptr<LispScope> localScope) -> std::shared_ptr<LispVariant>
 	{
 		var childScope = std::make_shared<LispScope>(name, localScope->GlobalScope, std::make_shared<string>(moduleName), scope->Output, scope->Input);
-		localScope->PushNextScope(childScope);
 
 		// add formal arguments to current scope
 		var i = 0;
@@ -1881,15 +1880,18 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		childScope->ClosureChain = scope;
 		childScope->NeedsLValue = scope->NeedsLValue;     // support setf in recursive calls
 
+		localScope->PushNextScope(childScope);
+
 		std::shared_ptr<LispVariant> ret;
 		try
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			localScope->PopNextScope();
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1903,10 +1905,16 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			{
 				scope->GlobalScope->Output->WriteLine(ex.ToString());
 
-				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
+				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/LispEnvironment::GetExpression(args[1]) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			localScope->PopNextScope();
+			throw;
+		}
+		catch (...)
+		{
+			localScope->PopNextScope();
+			throw;
 		}
 		localScope->PopNextScope();
 		return ret;
-- 
2.43.0


From 1f5c4dbd9caa2be994bec327ad0b6e2329219009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 27/56] fix: a function without a body is a language error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 61bc5ad..537bd00 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1817,6 +1817,8 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckOptionalArgs(Fn, 2, (size_t)-1, args, scope);
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
-- 
2.43.0


From 54f5aae518ee48b766a8b3b66395cc18583fa9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 28/56] fix: a failing evaluation or a return outside of a
 function restores the evaluation flags

---
 CppLisp/CppLispInterpreter/Environment.cpp | 48 +++++++++++++++++++---
 CppLisp/CppLispInterpreter/Lisp.cpp        |  1 +
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 537bd00..006334f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -607,7 +607,15 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
 			scope->PushNextScope(importScope);
 
-			result = Lisp::Eval(code, importScope, fileName);
+			try
+			{
+				result = Lisp::Eval(code, importScope, fileName);
+			}
+			catch (...)
+			{
+				scope->PopNextScope();
+				throw;
+			}
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
@@ -1303,7 +1311,16 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 
 	var originalLValue = scope->NeedsLValue;
 	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
+	std::shared_ptr<LispVariant> value;
+	try
+	{
+		value = EvalArgIfNeeded(args[0], scope);
+	}
+	catch (...)
+	{
+		scope->NeedsLValue = originalLValue;
+		throw;
+	}
 	scope->NeedsLValue = originalLValue;
 	return value;
 }
@@ -1411,9 +1428,21 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
 	var tempModuleName = scope->ModuleName;
+	var tempIsInEval = scope->IsInEval;
+	var code = variant.StringValue();
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
-	scope->IsInEval = false;
+	std::shared_ptr<LispVariant> result;
+	try
+	{
+		result = Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code);
+	}
+	catch (...)
+	{
+		scope->IsInEval = tempIsInEval;
+		scope->ModuleName = tempModuleName;
+		throw;
+	}
+	scope->IsInEval = tempIsInEval;
 	scope->ModuleName = tempModuleName;
 	return result;
 }
@@ -1559,7 +1588,16 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 
 	var originalNeedsLValue = scope->NeedsLValue;
 	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
+	std::shared_ptr<LispVariant> symbol;
+	try
+	{
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
+	catch (...)
+	{
+		scope->NeedsLValue = originalNeedsLValue;
+		throw;
+	}
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAst(args[1], scope);
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..ef5fc82 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -116,6 +116,7 @@ namespace CppLisp
 		// first create global scope, needed for macro expanding
 		var currentScope = scope == null ? LispEnvironment::CreateDefaultScope() : scope;
 		currentScope->ModuleName = moduleName;
+		currentScope->IsInReturn = false;
 		currentScope->Tracing = tracing;
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
-- 
2.43.0


From b5b01b1c61b0164c127e5f33b2826181c5250bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 29/56] fix: a spliced argument does not drop the arguments
 behind it

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..56b8787 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -169,7 +169,7 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments; // = new object[astWithResolvedValues->Count() - 1];
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -184,19 +184,13 @@ namespace CppLisp
 				const LispVariant & variant = result->ToLispVariantRef();
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
-					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
-					for(var elem : lst)
-					{
-						arguments[i - 1] = elem;
-						i++;
-					}
-
-					break;
+					const IEnumerable<std::shared_ptr<object>> & lst = variant.ListValueRef();
+					arguments.insert(arguments.end(), lst.begin(), lst.end());
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
-- 
2.43.0


From a44b9fae23a83d5f7152f152f9c1827de9955ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 30/56] fix: a quasiquoted list of two elements is processed
 like every other list

---
 CppLisp/CppLispInterpreter/Environment.cpp | 29 +++++++++-------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 006334f..1f41b39 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1740,32 +1740,27 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 				return std::make_shared<object>(*evalResult);
 			}
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+	for (var itm : expr)
 	{
-		for (var itm : expr)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
-- 
2.43.0


From 3d73a3f196458dd3a5e237c337a596bb3741d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 31/56] fix: only a symbol of the same name is replaced by a
 macro argument

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 08140d0..18d7af8 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -325,7 +325,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value->Equals(*(otherVariant.Value));
+			return IsSymbol() && otherVariant.IsSymbol() && StringValue() == otherVariant.StringValue();
 		}
 		return false;
 	}
-- 
2.43.0


From e1718aaa62cf84e5f71c14fed76a5e0d7a3190fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 32/56] fix: a macro call with too few arguments is a language
 error

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 56b8787..5e7d24c 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -370,6 +370,10 @@ namespace CppLisp
 
 		for (var formalArgument : *formalArguments)
 		{
+			if ((size_t)i >= astAsList->Count())
+			{
+				throw LispException("Not enough arguments for macro " + astAsList->First()->ToString(), scope.get());
+			}
 			std::shared_ptr<object> value;
 			auto elem = (*astAsList)[i];
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
-- 
2.43.0


From a888a5ee1f08ee16746ec6d24ca9c0201a68df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 33/56] fix: a compile time macro can be expanded to a number,
 a string or a symbol

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 5e7d24c..91e0875 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -279,8 +279,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
-				return std::make_shared<object>(*processedAst);
+				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAst(astWithReplacedArguments, globalScope)));
 			}
 		}
 
-- 
2.43.0


From d0f946ad3a13c0f7b67dca90b8d53013af188dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 34/56] fix: a list is expected where an expression or
 parameter list is needed

---
 CppLisp/CppLispInterpreter/csobject.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..7394500 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -505,11 +505,19 @@ namespace CppLisp
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectRef() const
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("Invalid cast to list.");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
 	IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectNotConstRef()
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("Invalid cast to list.");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
-- 
2.43.0


From 2fe876075354454b8690dfcee3163f805a59867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 35/56] fix: an expression without a value is nil where a value
 is needed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 32 ++++++++++++----------
 CppLisp/CppLispInterpreter/Interpreter.cpp | 19 ++++++++++---
 CppLisp/CppLispInterpreter/Interpreter.h   |  5 ++++
 CppLisp/CppLispInterpreter/Lisp.cpp        |  7 ++++-
 4 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 1f41b39..5ae1771 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -262,7 +262,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(arg, scope)) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -274,7 +274,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(args[1], scope));
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -1044,7 +1044,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(LispVariant(elem)));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		list.Add(std::make_shared<object>(*LispInterpreter::ValueOrNil(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1065,7 +1065,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
+		var x = *LispInterpreter::ValueOrNil(function.Function(args, scope));
 		result = std::make_shared<LispVariant>(x);
 	}
 	return result;
@@ -1381,7 +1381,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(args[0], scope));
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1540,7 +1540,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(arg, scope))->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1599,8 +1599,8 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 		throw;
 	}
 	scope->NeedsLValue = originalNeedsLValue;
-	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var symbolName = symbol->ToString();
+	var value = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(args[1], scope));
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1627,7 +1627,7 @@ static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<s
 		}
 	}
 
-	return null;
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 #ifdef ENABLE_COMPILE_TIME_MACROS 
@@ -1642,10 +1642,14 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
 		std::shared_ptr<object> result = LispInterpreter::ExpandMacros(std::make_shared<object>(*LispEnvironment::GetExpression(args[2])), scope);
+		if (result == null)
+		{
+			throw LispException("Expression expected in " + DefineMacroExpand, scope.get());
+		}
 		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
 	}
 
-	return null;
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 #endif
@@ -1734,7 +1738,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(item2, scope));
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1791,7 +1795,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(args[0], scope))->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1801,7 +1805,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(args[0], scope));
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1809,7 +1813,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::ValueOrNil(LispInterpreter::EvalAst(args[0], scope));
 	}
 	return result;
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 91e0875..eddd091 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -71,6 +71,11 @@ namespace CppLisp
 		return astWithResolvedValues;
 	}
 
+	std::shared_ptr<LispVariant> LispInterpreter::ValueOrNil(std::shared_ptr<LispVariant> result)
+	{
+		return result != null ? result : std::make_shared<LispVariant>(LispVariant(LispType::_Nil));
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -175,7 +180,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*ValueOrNil(EvalAst(arrAstWithResolvedValues[i], scope))) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
@@ -253,14 +258,15 @@ namespace CppLisp
 		var functionName = function->ToString();
 		if (globalScope != null && globalScope->ContainsKey(functionName))
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
-			if (fcn.IsEvalInExpand())
+			const LispVariant & fcnVariant = (*globalScope)[functionName]->ToLispVariantRef();
+			if (fcnVariant.IsFunction() && fcnVariant.FunctionValue().IsEvalInExpand())
 			{
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
 				args->RemoveAt(0);
 
 				// process compile time macro definition 
 				//   --> side effect: add macro definition to internal macro scope
+				var fcn = fcnVariant.FunctionValue();
 				fcn.Function(args->ToArray(), globalScope);
 
 				// compile time macros definitions will be removed from code in expand macro phase
@@ -279,7 +285,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAst(astWithReplacedArguments, globalScope)));
+				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*ValueOrNil(EvalAst(astWithReplacedArguments, globalScope))));
 			}
 		}
 
@@ -378,6 +384,11 @@ namespace CppLisp
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
 				value = /*elem;*/ ExpandMacros((*astAsList)[i], scope, /*ref*/ anyMacroReplaced);
+				if (value == null)
+				{
+					// macro definition as argument
+					value = std::make_shared<object>(LispVariant(LispType::_Nil));
+				}
 			}
 			else
 			{
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..8572de5 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,11 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+		/// <summary>
+		/// Returns the given result or nil if there is no result (i. e. for an if without else).
+		/// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> ValueOrNil(std::shared_ptr<LispVariant> result);
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index ef5fc82..2bc71d9 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -125,7 +125,12 @@ namespace CppLisp
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
 		var ast = LispParser::Parse(code, offset, currentScope);
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-		var expandedAst = std::make_shared<object>(*(LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope)));
+		var expandedAst = LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope);
+		if (expandedAst == null)
+		{
+			// nothing left after the expand phase
+			expandedAst = std::make_shared<object>(LispVariant(LispType::_Nil));
+		}
 #else
 		var expandedAst = std::make_shared<object>(*ast);
 #endif
-- 
2.43.0


From ea219e51f5696a0a5aeda4cb2870406c1b07012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 36/56] fix: the argument functions report that there is no
 enclosing function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 5ae1771..4b1093e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1351,16 +1351,26 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetArgsOfCurrentFunction(const string & functionName, std::shared_ptr<LispScope> scope)
+{
+	auto item = scope->find(ArgsMeta);
+	if (item == scope->end())
+	{
+		throw LispException("No function arguments available in " + functionName, scope.get());
+	}
+	return item->second->ToListRef();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetArgsOfCurrentFunction("argscount", scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetArgsOfCurrentFunction("args", scope)/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1369,7 +1379,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> & array = GetArgsOfCurrentFunction("arg", scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
-- 
2.43.0


From 46848c8010b1be67cd11c90cb7d775cab96d4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 37/56] fix: return, sleep and trace check the number of
 arguments, trace works in functions

---
 CppLisp/CppLispInterpreter/Environment.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 4b1093e..023c54d 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -133,7 +133,7 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
 	{
 		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		string temp = buffer != null ? buffer->ToString() : string::Empty;
 		temp += text;
 		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
@@ -401,6 +401,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckOptionalArgs("trace", 1, (size_t)-1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -408,7 +410,7 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	string buffer = scope->ContainsKey(Tracebuffer) ? (*scope)[Tracebuffer]->ToString() : string::Empty; // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
@@ -449,8 +451,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckOptionalArgs("sleep", 1, (size_t)-1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -633,6 +637,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckOptionalArgs("return", 1, (size_t)-1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
-- 
2.43.0


From 04a4be8d6cfbd8cc0e88ab221785017ac0af8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 38/56] fix: the documentation functions search functions only,
 in the loaded modules

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/Scope.cpp       | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 023c54d..8e0a41f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -338,7 +338,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index f083708..e126a15 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -258,13 +258,19 @@ namespace CppLisp
 				if (select(key, functionName))
 				{
 					const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
-					result += value.FunctionValue().GetFormatedDoc();
+					if (value.IsFunction())
+					{
+						result += value.FunctionValue().GetFormatedDoc();
+					}
 				}
 			}
 			else if (key.StartsWith(functionName))
 			{
 				const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
-				result += value.FunctionValue().GetFormatedDoc();
+				if (value.IsFunction())
+				{
+					result += value.FunctionValue().GetFormatedDoc();
+				}
 			}
 		}
 		return result;
-- 
2.43.0


From 29ee3c3d1638111b9e26b809a82d73028ced248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 39/56] fix: defn without fn or def is a language error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8e0a41f..96786bb 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2050,13 +2050,23 @@ static void UpdateDocumentationInformationAtScope(const std::vector<std::shared_
 	scope->UserDoc = std::make_shared<Tuple<string, string>>(signature, documentation);
 }
 
+static LispFunctionWrapper GetGlobalFunction(const string & functionName, std::shared_ptr<LispScope> scope)
+{
+	auto item = scope->GlobalScope->find(functionName);
+	if (item == scope->GlobalScope->end())
+	{
+		throw LispException("Function \"" + functionName + "\" not found", scope.get());
+	}
+	return item->second->ToLispVariantRef().FunctionValue();
+}
+
 static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name)
 {
 	CheckArgs(name, 3, args, scope);
 
 	UpdateDocumentationInformationAtScope(args, scope);
 
-	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
+	var fn = GetGlobalFunction(Fn, scope);
 	scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
 
 	std::vector<std::shared_ptr<object>> tempArgs;
@@ -2065,7 +2075,7 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	var resultingFcn = fn.Function(tempArgs, scope);
 	scope->UserData = null;
 
-	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
+	var defFcn = GetGlobalFunction(name, scope);
 	std::vector<std::shared_ptr<object>> tempArgs2;
 	tempArgs2.push_back(args[0]);
 	tempArgs2.push_back(std::make_shared<object>(*resultingFcn));
-- 
2.43.0


From c5ad80e0538f22b48a4be601f98db241c427010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 40/56] fix: SaveEval reports an exception of the standard
 library as error value

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 2bc71d9..ad23df6 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -187,6 +187,10 @@ namespace CppLisp
 		{
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
+		catch (const std::exception & exc)
+		{
+			result = LispVariant::CreateErrorValue(exc.what());
+		}
 		return result;
 	}
 
-- 
2.43.0


From 674a97b8a1692f367099a076c4c12d77b8061173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 41/56] fix: a breakpoint condition is evaluated without
 stopping and without side effects on the scope state

---
 CppLisp/CppLispDebugger/Debugger.cpp | 31 ++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..bce81c1 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -346,6 +346,31 @@ namespace CppLisp
 		IsStopStepFcn = [](std::shared_ptr<LispScope> /*scope*/) -> bool { return true; };
 	}
 
+	// detaches the debugger from the program as long as the instance lives,
+	// restores the state of the interrupted scope afterwards
+	struct DebuggerSuspender
+	{
+		DebuggerSuspender(std::shared_ptr<LispScope> scope)
+			: m_Scope(scope), m_pDebugger(scope->GlobalScope->Debugger), m_CurrentToken(scope->CurrentToken), m_Tokens(scope->Tokens), m_bIsInReturn(scope->IsInReturn)
+		{
+			m_Scope->GlobalScope->Debugger = null;
+		}
+
+		~DebuggerSuspender()
+		{
+			m_Scope->GlobalScope->Debugger = m_pDebugger;
+			m_Scope->CurrentToken = m_CurrentToken;
+			m_Scope->Tokens = m_Tokens;
+			m_Scope->IsInReturn = m_bIsInReturn;
+		}
+
+		std::shared_ptr<LispScope> m_Scope;
+		ILispDebugger * m_pDebugger;
+		std::shared_ptr<LispToken> m_CurrentToken;
+		decltype(LispScope::Tokens) m_Tokens;
+		bool m_bIsInReturn;
+	};
+
 	bool LispDebugger::HitsBreakpoint(size_t lineNo, const string & moduleName, std::shared_ptr<LispScope> scope)
 	{
 		for (var breakpoint : Breakpoints)
@@ -357,8 +382,10 @@ namespace CppLisp
 				{
 					try
 					{
-						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result->BoolValue();
+						// do not stop while the condition itself is evaluated
+						DebuggerSuspender suspender(scope);
+						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName, scope->Tracing);
+						return result != null && result->BoolValue();
 					}
 					catch (...)
 					{
-- 
2.43.0


From bf5c8e8a19ccd6362f6bbe1747ff669b4afbbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 42/56] fix: no debugger command makes the debugger fail

---
 CppLisp/CppLispDebugger/Debugger.cpp | 38 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index bce81c1..477702d 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -56,6 +56,19 @@ namespace CppLisp
 	{
 	}
 
+	static void ShowDocumentation(std::shared_ptr<TextWriter> output, const string & docCmd, std::shared_ptr<LispScope> scope)
+	{
+		try
+		{
+			std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, scope, scope->ModuleName);
+			output->WriteLine(string("{0}"), result->ToString());
+		}
+		catch (LispExceptionBase & ex)
+		{
+			output->WriteLine("Exception: " + ex.Message);
+		}
+	}
+
 	bool LispDebugger::InteractiveLoop(LispDebugger * debugger, std::shared_ptr<LispScope> initialTopScope, bool startedFromMain, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
 	{
 		string interactiveScript;
@@ -123,9 +136,7 @@ namespace CppLisp
 				var items = cmd.Split(' ');
 				if (items.size() > 1)
 				{
-					string docCmd = "(doc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					ShowDocumentation(debugger->Output, "(doc '" + items[1] + ")", currentScope);
 				}
 				else
 				{
@@ -137,9 +148,7 @@ namespace CppLisp
 				var items = cmd.Split(' ');
 				if (items.size() > 1)
 				{
-					string docCmd = "(searchdoc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					ShowDocumentation(debugger->Output, "(searchdoc '" + items[1] + ")", currentScope);
 				}
 				else
 				{
@@ -242,7 +251,7 @@ namespace CppLisp
 				try
 				{
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", result != null ? result->ToString() : LispToken::NilConst);
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
@@ -264,11 +273,12 @@ namespace CppLisp
 		if (currentAst != null)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			var currentToken = initialTopScope != null ? initialTopScope->CurrentToken : null;
+			var startPos = currentToken != null ? currentToken->StartPos : 0;
+			var stopPos = currentToken != null ? currentToken->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
-			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
+			var tokenTxt = currentToken != null ? currentToken->ToString() : "?";
+			Output->WriteLine("--> " + (currentAst->size() > 0 ? (*((*currentAst).begin()))->ToString()/*[0]*/ : string("()")) + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
 	}
@@ -526,7 +536,7 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO" || string::IsNullOrEmpty(answer)));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
@@ -644,7 +654,9 @@ namespace CppLisp
 		var ok = true;
 		try
 		{
-			result = /*Convert.ToInt32*/atoi(value.c_str());
+			size_t stopPos = 0;
+			result = /*Convert.ToInt32*/std::stoi(value, &stopPos);
+			ok = stopPos == value.size();
 		}
 		catch (/*FormatException*/...)
 		{
-- 
2.43.0


From 95239cbaf8086dc77e9cc3a0157bd628bb36733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 43/56] fix: a program without a value or a missing script does
 not abort the command line tool

---
 CppLisp/CppLispInterpreter/fuel.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..46d480a 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,7 +211,8 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			var scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts.front() : string::Empty/*.FirstOrDefault()*/;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
@@ -338,6 +339,11 @@ namespace CppLisp
 			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
 		}
 
+		if (result == null)
+		{
+			// the program has no value
+			result = std::make_shared<LispVariant>();
+		}
 		if (macroExpand)
 		{
 			output->WriteLine(string("Macro expand: ") + result->ToString());
-- 
2.43.0


From 86318aebed32fcc18d347c91137945cc075c3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 44/56] fix: modulo by -1 reports a first operand that is no
 number

---
 CppLisp/CppLispInterpreter/Variant.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 18d7af8..8f7bff9 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -452,12 +452,13 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
+			int dividend = ToInt();
 			int divisor = r.ToInt();
 			if (divisor == 0)
 			{
 				throw CreateDivisionByZeroException(*this);
 			}
-			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : ToInt() % divisor));
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : dividend % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
-- 
2.43.0


From d689d2373ecbf9c2adbaaeb938ecd417ccb5b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 45/56] fix: keep nil in quoted expressions when macros are
 expanded

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index eddd091..9c52171 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -231,7 +231,7 @@ namespace CppLisp
 		{
 			std::shared_ptr<LispVariant> variant = something->ToLispVariant();
 
-			if (variant.get() != null && variant->IsList())
+			if (variant.get() != null && variant->IsList() && !variant->IsNil())
 			{
 				return std::make_shared<object>(variant->ListValueRef());
 			}
-- 
2.43.0


From f29aec96a4f8bf49944744629748cfc9613eaec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 46/56] fix: replace all formal macro arguments in one pass,
 actual arguments are not searched for formal names

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 32 +++++++++++++++-------
 CppLisp/CppLispInterpreter/Interpreter.h   |  2 +-
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 9c52171..a73ddcd 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -324,14 +324,23 @@ namespace CppLisp
 		return /*new*/ LispBreakpointPosition(-1, -1, -1);
 	}
 
-	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ReplaceSymbolWithValueInExpression(const LispVariant & symbol, std::shared_ptr<object> symbolValue, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, bool macroArgsReplace, /*ref*/ bool & replacedAnything)
+	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ReplaceSymbolsWithValuesInExpression(const std::vector<LispVariant> & symbols, const std::vector<std::shared_ptr<object>> & symbolValues, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, /*ref*/ bool & replacedAnything)
 	{
 		var ret = std::make_shared<IEnumerable<std::shared_ptr<object>>>();
 		for (var elem : *expression)
 		{
-			// is the current element the symbol which should be replaced? --> Yes
-			if (symbol.SymbolCompare(elem))
+			// all symbols are replaced in one pass: the inserted values must not be searched for symbols again
+			size_t index = 0;
+			while (index < symbols.size() && !symbols[index].SymbolCompare(elem))
 			{
+				index++;
+			}
+			// is the current element a symbol which should be replaced? --> Yes
+			if (index < symbols.size())
+			{
+				const std::shared_ptr<object> & symbolValue = symbolValues[index];
+				// the first symbol stands for all macro arguments
+				bool macroArgsReplace = index == 0;
 				if (symbolValue->IsIEnumerableOfObject() && macroArgsReplace)
 				{
 					(*ret).AddRange(symbolValue->ToEnumerableOfObjectRef());
@@ -344,15 +353,15 @@ namespace CppLisp
 				{
 					(*ret).Add(symbolValue);
 				}
-				replacedAnything = true;
+				replacedAnything = replacedAnything || !macroArgsReplace;
 			}
 			// is it an expression? --> recursive call
 			else if (LispEnvironment::IsExpression(elem))
 			{
-				std::shared_ptr<IEnumerable<std::shared_ptr<object>>> temp = ReplaceSymbolWithValueInExpression(symbol, symbolValue, LispEnvironment::GetExpression(elem)/*.ToArray()*/, macroArgsReplace, /*ref*/ replacedAnything);
+				std::shared_ptr<IEnumerable<std::shared_ptr<object>>> temp = ReplaceSymbolsWithValuesInExpression(symbols, symbolValues, LispEnvironment::GetExpression(elem)/*.ToArray()*/, /*ref*/ replacedAnything);
 				(*ret).Add(std::make_shared<object>(*temp));
 			}
-			// current element is not the symbol which should by replaced !
+			// current element is not a symbol which should by replaced !
 			else
 			{
 				ret->Add(elem);
@@ -365,13 +374,15 @@ namespace CppLisp
 	{
 		// replace (quoted-macro-args) --> '(<real_args>)
 		int i = 1;
-		bool replaced = false;
+		std::vector<LispVariant> symbols;
+		std::vector<std::shared_ptr<object>> symbolValues;
 		IEnumerable<std::shared_ptr<object>> realArguments = astAsList->Skip(1)/*.ToList()*/;
 		IEnumerable<std::shared_ptr<object>> lst;
 		lst.Add(std::make_shared<object>(LispVariant(LispType::_Symbol, std::make_shared<object>(LispEnvironment::Quote))));
 		lst.Add(std::make_shared<object>(LispVariant(std::make_shared<object>(realArguments))));
 		/*List<object>*/std::shared_ptr<object> quotedRealArguments = std::make_shared<object>(lst); //  new List<object>() { new LispVariant(LispType.Symbol, LispEnvironment.Quote), realArguments };
-		expression = ReplaceSymbolWithValueInExpression(LispVariant(LispType::_Symbol, std::make_shared<object>("quoted-macro-args")), quotedRealArguments, expression, true, /*ref*/ replaced);
+		symbols.push_back(LispVariant(LispType::_Symbol, std::make_shared<object>("quoted-macro-args")));
+		symbolValues.push_back(quotedRealArguments);
 
 		for (var formalArgument : *formalArguments)
 		{
@@ -394,10 +405,11 @@ namespace CppLisp
 			{
 				value = std::make_shared<object>(LispVariant((*astAsList)[i]));
 			}
-			expression = ReplaceSymbolWithValueInExpression(/*(LispVariant)*/formalArgument->ToLispVariantRef(), value, expression, false, /*ref*/ anyMacroReplaced);
+			symbols.push_back(/*(LispVariant)*/formalArgument->ToLispVariantRef());
+			symbolValues.push_back(value);
 			i++;
 		}
-		return expression;
+		return ReplaceSymbolsWithValuesInExpression(symbols, symbolValues, expression, /*ref*/ anyMacroReplaced);
 	}
 
 	bool LispInterpreter::IsSymbol(std::shared_ptr<object> elem)
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 8572de5..daa2d9a 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -99,7 +99,7 @@ namespace CppLisp
         /// <returns></returns>
 		/*private*/ static LispBreakpointPosition GetPosInfo(std::shared_ptr<object> item);
 
-		/*private*/ static std::shared_ptr<IEnumerable<std::shared_ptr<object>>> ReplaceSymbolWithValueInExpression(const LispVariant & symbol, std::shared_ptr<object> symbolValue, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, bool macroArgsReplace, /*ref*/ bool & replacedAnything);
+		/*private*/ static std::shared_ptr<IEnumerable<std::shared_ptr<object>>> ReplaceSymbolsWithValuesInExpression(const std::vector<LispVariant> & symbols, const std::vector<std::shared_ptr<object>> & symbolValues, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, /*ref*/ bool & replacedAnything);
 		/*private*/ static std::shared_ptr<IEnumerable<std::shared_ptr<object>>> ReplaceFormalArgumentsInExpression(std::shared_ptr<IEnumerable<std::shared_ptr<object>>> formalArguments, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astAsList, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, std::shared_ptr<LispScope> scope, /*ref*/ bool & anyMacroReplaced);
 		/*private*/ static bool IsSymbol(std::shared_ptr<object> elem);
 
-- 
2.43.0


From 39c77bcb09a53ccc95d7ed92df4c44385d63e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 47/56] fix: a breakpoint whose condition does not hold hides
 no other breakpoint of the same line

---
 CppLisp/CppLispDebugger/Debugger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 477702d..727d83a 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -395,12 +395,16 @@ namespace CppLisp
 						// do not stop while the condition itself is evaluated
 						DebuggerSuspender suspender(scope);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName, scope->Tracing);
-						return result != null && result->BoolValue();
+						if (result == null || !result->BoolValue())
+						{
+							// another breakpoint might be defined for this position
+							continue;
+						}
 					}
 					catch (...)
 					{
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
-						return false;
+						continue;
 					}
 				}
 				return true;
-- 
2.43.0


From 2dd5581818559f907cbddf36fed64a28db6684cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 48/56] fix: an imported module is not copied, its variables
 are seen with their current values

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/csobject.cpp    | 12 +++++++++---
 CppLisp/CppLispInterpreter/csobject.h      |  3 ++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 96786bb..7bc78fa 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -622,7 +622,7 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			}
 
 			// add new module to modules scope
-			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(importScope); // .Add(fileName, importScope);
 
 			scope->PopNextScope();
 		}
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 7394500..1e7ae19 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -64,7 +64,13 @@ namespace CppLisp
 	object::object(const LispScope & value)
 		: m_Type(ObjectType::__LispScope)
 	{
-		m_Data.pScope = new LispScope(value);
+		m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(value));
+	}
+
+	object::object(const std::shared_ptr<LispScope> & value)
+		: m_Type(ObjectType::__LispScope)
+	{
+		m_Data.pScope = new std::shared_ptr<LispScope>(value);
 	}
 
 	object::object(std::function<void(std::shared_ptr<object>)> action)
@@ -83,7 +89,7 @@ namespace CppLisp
 		}
 		else if (other.IsLispScope())
 		{
-			m_Data.pScope = new LispScope(*(other.GetLispScopeRef()));
+			m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(*(other.GetLispScopeRef())));
 		}
 		else if (other.IsLispFunctionWrapper())
 		{
@@ -436,7 +442,7 @@ namespace CppLisp
 	{
 		if (IsLispScope())
 		{
-			return m_Data.pScope;
+			return m_Data.pScope->get();
 		}
 		return null;
 	}
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index 341dc85..45de1db 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -116,7 +116,7 @@ namespace CppLisp
 // TODO --> maybe use shared_ptr, so we can return the correct reference and no copy (i. e. for pCompileMacro) --> search for return copy
 			std::string * pString;
 			LispVariant * pVariant;
-			LispScope * pScope;
+			std::shared_ptr<LispScope> * pScope;
 			LispToken * pToken;
 			IEnumerable<std::shared_ptr<object>> * pList;
 			LispFunctionWrapper * pFunctionWrapper;
@@ -180,6 +180,7 @@ namespace CppLisp
 		explicit object(const LispMacroCompileTimeExpand & value);
 
 		explicit object(const LispScope & value);
+		explicit object(const std::shared_ptr<LispScope> & value);
 
 		explicit object(std::function<void(std::shared_ptr<object>)> action);
 
-- 
2.43.0


From d952fc4eb2957dff953771854115a22ed476ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 49/56] fix: expand macro calls nested in code which a compile
 time macro creates

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index a73ddcd..a294643 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -291,9 +291,11 @@ namespace CppLisp
 
 		var expandedAst = std::make_shared<IEnumerable<std::shared_ptr<object>>>();
 		// Expand recursively and handle enumarations (make them flat !)
+		bool isQuoted = functionName == LispEnvironment::Quote;
 		for (var elem : astAsList)
 		{
-			var expandResult = ExpandMacros(elem, globalScope);
+			// code created by a macro may contain nested macro calls, a quoted list is data
+			var expandResult = ExpandMacros(isQuoted ? elem : ConvertLispVariantListToListIfNeeded(elem), globalScope);
 			// ignore code which is removed in macro expand phase
 			if (expandResult != null)
 			{
-- 
2.43.0


From dd35b4a4a96a9cf2f0c4b3e1da99b82524a3fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 50/56] fix: the debugger and error messages report the
 position of the call, not of its last argument

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index a294643..6908344 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -198,6 +198,9 @@ namespace CppLisp
 			arguments.push_back(result);
 		}
 
+		// the evaluation of the arguments has moved the current line number to the last evaluated argument
+		scope->CurrentToken = currentToken != null ? currentToken : scope->CurrentToken;
+
 #ifndef _DISABLE_DEBUGGER
 		// debugger processing
 		var debugger = scope->GlobalScope->Debugger;
-- 
2.43.0


From f347866ae900e8e87dfa7e3540cb04db6ab77391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 51/56] fix: initialize the tracing flag of a scope

---
 CppLisp/CppLispInterpreter/Scope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index e126a15..32db873 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -35,6 +35,7 @@ namespace CppLisp
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
+		Tracing = false;
 		Name = fcnName;
 		ModuleName = moduleName ? *moduleName : string::Empty;
 		//GlobalScope = globalScope != null ? globalScope : shared_from_this();
-- 
2.43.0


From 1b27d0af89f319cb97c53202cf4cee7c6b5485ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 52/56] fix: the documentation commands of the debugger do not
 stop in the debugger

---
 CppLisp/CppLispDebugger/Debugger.cpp | 52 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 727d83a..9f118e4 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -56,10 +56,37 @@ namespace CppLisp
 	{
 	}
 
+	// detaches the debugger from the program as long as the instance lives,
+	// restores the state of the interrupted scope afterwards
+	struct DebuggerSuspender
+	{
+		DebuggerSuspender(std::shared_ptr<LispScope> scope)
+			: m_Scope(scope), m_pDebugger(scope->GlobalScope->Debugger), m_CurrentToken(scope->CurrentToken), m_Tokens(scope->Tokens), m_bIsInReturn(scope->IsInReturn)
+		{
+			m_Scope->GlobalScope->Debugger = null;
+		}
+
+		~DebuggerSuspender()
+		{
+			m_Scope->GlobalScope->Debugger = m_pDebugger;
+			m_Scope->CurrentToken = m_CurrentToken;
+			m_Scope->Tokens = m_Tokens;
+			m_Scope->IsInReturn = m_bIsInReturn;
+		}
+
+		std::shared_ptr<LispScope> m_Scope;
+		ILispDebugger * m_pDebugger;
+		std::shared_ptr<LispToken> m_CurrentToken;
+		decltype(LispScope::Tokens) m_Tokens;
+		bool m_bIsInReturn;
+	};
+
 	static void ShowDocumentation(std::shared_ptr<TextWriter> output, const string & docCmd, std::shared_ptr<LispScope> scope)
 	{
 		try
 		{
+			// do not stop while the documentation is retrieved
+			DebuggerSuspender suspender(scope);
 			std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, scope, scope->ModuleName);
 			output->WriteLine(string("{0}"), result->ToString());
 		}
@@ -356,31 +383,6 @@ namespace CppLisp
 		IsStopStepFcn = [](std::shared_ptr<LispScope> /*scope*/) -> bool { return true; };
 	}
 
-	// detaches the debugger from the program as long as the instance lives,
-	// restores the state of the interrupted scope afterwards
-	struct DebuggerSuspender
-	{
-		DebuggerSuspender(std::shared_ptr<LispScope> scope)
-			: m_Scope(scope), m_pDebugger(scope->GlobalScope->Debugger), m_CurrentToken(scope->CurrentToken), m_Tokens(scope->Tokens), m_bIsInReturn(scope->IsInReturn)
-		{
-			m_Scope->GlobalScope->Debugger = null;
-		}
-
-		~DebuggerSuspender()
-		{
-			m_Scope->GlobalScope->Debugger = m_pDebugger;
-			m_Scope->CurrentToken = m_CurrentToken;
-			m_Scope->Tokens = m_Tokens;
-			m_Scope->IsInReturn = m_bIsInReturn;
-		}
-
-		std::shared_ptr<LispScope> m_Scope;
-		ILispDebugger * m_pDebugger;
-		std::shared_ptr<LispToken> m_CurrentToken;
-		decltype(LispScope::Tokens) m_Tokens;
-		bool m_bIsInReturn;
-	};
-
 	bool LispDebugger::HitsBreakpoint(size_t lineNo, const string & moduleName, std::shared_ptr<LispScope> scope)
 	{
 		for (var breakpoint : Breakpoints)
-- 
2.43.0


From b046ee0f694c4a782eb2a0018d2316019f97ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 53/56] fix: string::Format: the text ##<NULL>## is an argument
 like every other

---
 CppLisp/CppLispInterpreter/csstring.cpp | 4 +++-
 CppLisp/CppLispInterpreter/csstring.h   | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 4eda401..52dd75c 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -32,6 +32,8 @@
 
 namespace CppLisp
 {
+	const string string::NoArgument;
+
 	string::string()
 		: std::string()
 	{
@@ -162,7 +164,7 @@ namespace CppLisp
 			else
 			{
 				const string & arg = *(args[txt[i + 1] - '0']);
-				if (arg == NULL_STRING)
+				if (&arg == &NoArgument)
 				{
 					throw LispExceptionBase("Not enough items for format string: " + txt);
 				}
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 3ce2ffd..a1c29ea 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -94,8 +94,6 @@
 //}
 //#endif
 
-#define NULL_STRING "##<NULL>##"
-
 namespace CppLisp
 {
 	inline std::string & do_replace(std::string & s, const std::string & searchTxt, const std::string & replaceTxt)
@@ -188,10 +186,12 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
+		static string Format(const string & txt, const string & arg1 = NoArgument, const string & arg2 = NoArgument, const string & arg3 = NoArgument, const string & arg4 = NoArgument, const string & arg5 = NoArgument);
 		static int CompareOrdinal(const string & a, const string & b);
 
 		const static string Empty;
+		// default value of the arguments of Format(), identified by its address
+		const static string NoArgument;
 	};
 }
 
-- 
2.43.0


From 6e92eb5cf39556901f8ce105a7fd12e2c5819f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 54/56] fix: a quasiquoted list may be changed by the
 expression it unquotes

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7bc78fa..1c24f7a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1739,7 +1739,7 @@ std::shared_ptr<LispVariant> unquotesplicing_form(const std::vector<std::shared_
 	return std::make_shared<LispVariant>(args[0]);
 }
 
-static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::shared_ptr<object>> & expr, std::shared_ptr<LispScope> scope, /*out*/ bool & splicing)
+static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::shared_ptr<object>> expr /*a copy: the evaluation of an unquoted expression may change the list*/, std::shared_ptr<LispScope> scope, /*out*/ bool & splicing)
 {
 	IEnumerable<std::shared_ptr<object>> result;
 
-- 
2.43.0


From 87d459979b743a160681524c30c6842ba8e5f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:50 +0000
Subject: [PATCH 55/56] fix: a call from a scope below the top of the call
 stack keeps the scopes above it

---
 CppLisp/CppLispInterpreter/Scope.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.h b/CppLisp/CppLispInterpreter/Scope.h
index e35cab7..de7cf14 100644
--- a/CppLisp/CppLispInterpreter/Scope.h
+++ b/CppLisp/CppLispInterpreter/Scope.h
@@ -83,6 +83,12 @@ namespace CppLisp
 		/*public*/ std::shared_ptr<LispScope> Next; // { get; private set; }
 		/*public*/ std::shared_ptr<LispScope> Previous; // { get; set; }
 
+        /// <summary>
+        /// The next scope of the previous scope before this scope was pushed
+        /// (for a call from a scope which is not the top of the call stack).
+        /// </summary>
+		/*public*/ std::shared_ptr<LispScope> HiddenNext; // { get; private set; }
+
         /// <summary>
         /// Gets or sets the scope chain to implement closures.
         /// </summary>
@@ -196,14 +202,17 @@ namespace CppLisp
 
         /*public*/ inline void PushNextScope(std::shared_ptr<LispScope> nextScope)
         {
+            nextScope->HiddenNext = Next;
             Next = nextScope;
             nextScope->Previous = shared_from_this();
         }
 
         /*public*/ inline void PopNextScope()
         {
-            Next->Previous = null;
-            Next = null;
+            std::shared_ptr<LispScope> current = Next;
+            Next = current->HiddenNext;
+            current->HiddenNext = null;
+            current->Previous = null;
         }
 
         /// <summary>
-- 
2.43.0


From 8e38844f931ebd01553ebdcf523e3ce41e078624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 56/56] fix: a debugger loop left with an exception leaves no
 dead scope on the call stack

---
 CppLisp/CppLispInterpreter/Environment.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 1c24f7a..d36e7e4 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1960,7 +1960,16 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			{
 				scope->GlobalScope->Output->WriteLine(ex.ToString());
 
-				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/LispEnvironment::GetExpression(args[1]) /*new List<object> { info.Item2 }*/);
+				try
+				{
+					debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/LispEnvironment::GetExpression(args[1]) /*new List<object> { info.Item2 }*/);
+				}
+				catch (...)
+				{
+					// the debugger loop may be left with an exception
+					localScope->PopNextScope();
+					throw;
+				}
 			}
 
 			localScope->PopNextScope();
-- 
2.43.0

