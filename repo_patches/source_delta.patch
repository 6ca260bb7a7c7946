From 09703ff1d6fa86c42035d27a0b42c37c3ba400d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 01/64] fix: escape every special character in XML values, not
 only the first of its kind

---
 src/tool1cd/Common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..a14feab 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,11 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From 9bf1e5c4bdea4ee5d9feda585dd12f58ef11783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 02/64] fix: count the hidden VERSION field in the record
 length of tables with record locks

---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..16be913 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -298,6 +298,7 @@ void Table::init(int32_t block_descr)
 		fld->set_name("VERSION");
 		fld->set_type_manager(FieldType::Version8());
 		fields.push_back(fld);
+		num_fields++;
 	}
 
 	t = t->get_next();
-- 
2.43.0


From 592060327bcb30fa2c56f5990b341753c4a2743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 03/64] fix: binary and var binary values are presented without
 trailing NUL characters and padding

---
 src/tool1cd/FieldType.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..bb163f2 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,17 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
 
 	int32_t m = *(int16_t*)fr; // длина + смещение
+	if (m < 0) m = 0;
+	if (m > length) m = length;
+	result.resize(m * 2);
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +79,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From 235e2f459e319c2ba2b1d335e56c9010afd27780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 04/64] fix: a text value ends where its blob ends, not at the
 first NUL byte in memory

---
 src/tool1cd/FieldType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index bb163f2..041e358 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -749,7 +749,8 @@ string CommonFieldType::get_XML_presentation(const char *rec, const Table *paren
 			uint32_t *retyped = (uint32_t*)fr;
 			out = new TMemoryStream();
 			parent->readBlob(out, retyped[0], retyped[1]);
-			string s = toXML(string(static_cast<char*>(out->GetMemory()), 0, out->GetSize()));
+			auto bytes = out->GetBytes();
+			string s = toXML(string(bytes.begin(), bytes.end()));
 			delete out;
 			return s;
 		}
-- 
2.43.0


From 736da57d8581a831c8cfc411efd7bcdbcf98efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 05/64] fix: line breaks of base64 text are two 16-bit
 characters on every platform

---
 src/tool1cd/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..688ccbb 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -50,7 +50,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	{
 		if(blocksout >= linesize/4 && linesize)
 		{
-			outfile->Write(L"\r\n", 4);
+			outfile->Write(u"\r\n", 4);
 			blocksout = 0;
 		}
 		blocksout++;
@@ -65,7 +65,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	len = infile->GetSize() - infile->GetPosition();
 	if(len > 0)
 	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(u"\r\n", 4);
 		in[1] = 0;
 		in[2] = 0;
 		infile->Read(in, len);
-- 
2.43.0


From 1801e084061352cb5e151e02802893f1a5865f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 06/64] fix: -eax exports the records of tables that have
 indexes but no primary one

---
 src/ctool1cd/App.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2dde0f7..204fd08 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -81,9 +81,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 	for (int j = 0; j < base1CD->get_numtables(); j++) {
 		tbl = base1CD->get_table(j);
 
-		if (!tbl->get_num_indexes()) {
-			tbl->fill_records_index();
-		}
+		tbl->fill_records_index();
 
 		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
 
-- 
2.43.0


From e08c1746ca3de5ad080789ca1facaaf82811069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 07/64] fix: initialise the number of image fields before
 counting them

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 16be913..be146f9 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -915,7 +915,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		curindex= *primary;
 	}
 
-	int image_count; // количество полей с типом image
+	int image_count = 0; // количество полей с типом image
 	for (auto field : fields) {
 		f.WriteString(fpart1);
 		f.WriteString(field->get_name());
-- 
2.43.0


From 98de9da4522d47c97a8c9b7a6cee7c6daa2bbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 08/64] fix: a stored date has 14 digits in 7 bytes, do not
 read past it

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..81d20e2 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -63,7 +63,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push2(first_byte);
 	}
 	++byte_data;
-	int i = 1;
+	int i = has_sign_flag ? 1 : 2;
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
@@ -210,7 +210,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From 6f8585216633ebd3799e29bad9ec78c0ad348d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 09/64] fix: a file that cannot be opened is an error, and
 files are opened for writing only when asked to

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 52 +++++++++++++++--------
 src/tool1cd/SystemClasses/TFileStream.hpp |  5 +++
 2 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 790071d..407d81a 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -19,6 +19,9 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include "TFileStream.hpp"
+#include "Exception.hpp"
+#include <cerrno>
+#include <cstring>
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
@@ -29,31 +32,44 @@ namespace Classes {
 TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
 	: TWrapperStream(), filename(FileName)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
-	}
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
-	m_position = 0;
+	open(fileMode);
 }
 
 TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fileMode)
 	: TWrapperStream(), filename(path.string())
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
+	open(fileMode);
+}
+
+
+TFileStream::~TFileStream()
+{
+	Close();
+}
+
+void TFileStream::open(const uint16_t fileMode)
+{
+	open_mode = std::ios::binary | std::ios::in;
+	if (fileMode == fmCreate || (fileMode & 0x000F) == fmOpenReadWrite) {
+		open_mode |= std::ios::out;
+	}
+	std::ios_base::openmode mode = open_mode;
 	if (fileMode == fmCreate) {
 		mode |= std::ios::trunc;
 	}
-	_stream = std::make_shared<boost::filesystem::fstream>(path, mode);
-	reopen(_stream);
+	open_stream(mode);
 	m_position = 0;
 }
 
-
-TFileStream::~TFileStream()
+void TFileStream::open_stream(std::ios_base::openmode mode)
 {
-	Close();
+	errno = 0;
+	auto stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	if (!stream->is_open()) {
+		throw Exception(filename + ": " + std::strerror(errno));
+	}
+	_stream = stream;
+	reopen(_stream);
 }
 
 int16_t TFileStream::GetHandle() const
@@ -68,16 +84,16 @@ void TFileStream::Reopen()
 			return;
 		}
 	}
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
+	open_stream(open_mode);
 }
 
 
 void TFileStream::Close()
 {
-	_stream->close();
-	_stream.reset();
+	if (_stream) {
+		_stream->close();
+		_stream.reset();
+	}
 }
 
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index d018f3f..8c60e53 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -58,6 +58,11 @@ public:
 protected:
 	std::string filename;
 	std::shared_ptr<std::fstream> _stream;
+	std::ios_base::openmode open_mode;
+
+private:
+	void open(const uint16_t fileMode);
+	void open_stream(std::ios_base::openmode mode);
 };
 
 } // Classes
-- 
2.43.0


From 918d48fac2cbd4ba9858a4e3bf7eaf3b7797edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 10/64] fix: a failed write or seek of a file stream is
 reported, also after a read that met the end of the file

---
 src/tool1cd/SystemClasses/TStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..9f05dba 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -195,8 +195,9 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 {
 	_stream->clear();
 	_stream->seekg(GetPosition(), std::ios_base::beg);
+	bool seek_failed = !*_stream;
 	_stream->read((char*)Buffer, Count);
-	if (_stream->bad()) {
+	if (seek_failed || _stream->bad()) {
 		std::string err(std::strerror(errno));
 		std::cerr << err << std::endl;
 		throw Exception(err);
@@ -208,10 +209,11 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
+	_stream->clear();
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
-	if (_stream->bad()) {
+	if (!*_stream) {
 		string err(std::strerror(errno));
 		std::cerr << err << std::endl;
 		throw Exception(err);
-- 
2.43.0


From 789eb6cef9f8aeb5825ec1c451359d7e65198c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 11/64] fix: the exit status of ctool1cd tells that an error
 was reported

---
 src/tool1cd/Messenger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b104b9b..db27ef0 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -44,6 +44,10 @@ void Messenger::Status(const string &message)
 //---------------------------------------------------------------------------
 void Messenger::AddDetailedMessage(const string &message, const MessageState mstate, const TStringList *param)
 {
+	if (mstate == MessageState::Error) {
+		has_error = true;
+	}
+
 	if (mstate < minimal_state) {
 		return;
 	}
-- 
2.43.0


From a1d6d6333d52ca087701dba9e42ae4acedcf8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 12/64] fix: a database that cannot be opened ends the program
 with an error, not with an unhandled exception

---
 src/ctool1cd/App.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 204fd08..f2c5a14 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -593,9 +593,20 @@ int App::Run()
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
 
-	base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	try {
+		base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	}
+	catch (DetailedException &ex) {
+		ex.show();
+	}
+	catch (Exception &ex) {
+		msreg_g.AddError(ex.Message());
+	}
+	catch (...) {
+		msreg_g.AddError("Неизвестная ошибка.");
+	}
 
-	if (base1CD->is_open()) {
+	if (base1CD && base1CD->is_open()) {
 		msreg_g.AddMessage ("База данных 1CD открыта", MessageState::Succesfull)
 							.with("Файл", dbpath.string())
 							.with("Версия базы", base1CD->ver)
-- 
2.43.0


From eac7f25d272d0cbc963a719b4878a07c71b82c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 13/64] fix: copying from an exhausted stream does not write
 zero bytes instead of the missing data

---
 src/tool1cd/SystemClasses/TStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 9f05dba..8c69ecb 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -109,6 +109,9 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 	}
 	std::vector<uint8_t> _data;
 	auto resultCount = Source->Read(_data, Count);
+	if (resultCount <= 0) {
+		return 0;
+	}
 	return Write(_data, resultCount);
 }
 
-- 
2.43.0


From 569d853f7c250067cd77c0cd5a7eecfd435c395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 14/64] fix: deflating an empty stream or one of a multiple of
 16384 bytes completes the deflate stream

---
 src/tool1cd/UZLib.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..4f394cc 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -46,6 +46,7 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	z_stream strm;
 	unsigned char in[CHUNKSIZE];
 	unsigned char out[CHUNKSIZE];
+	int64_t left = src->GetSize() - src->GetPosition();
 
 	// allocate deflate state
 	strm.zalloc = Z_NULL;
@@ -61,12 +62,10 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
-			return false;
-		}
 		/* TODO: ZDeflateStream проверка ошибок */
 
-		flush = (strm.avail_in < CHUNKSIZE) ? Z_FINISH : Z_NO_FLUSH;
+		left -= strm.avail_in;
+		flush = (left <= 0 || strm.avail_in == 0) ? Z_FINISH : Z_NO_FLUSH;
 		strm.next_in = in;
 
 		// run deflate() on input until output buffer not full, finish
-- 
2.43.0


From 8a21627d6ce2b49e0f58f18c0bb05b62aff2b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 15/64] fix: a truncated deflate stream is an error, and data
 that is not deflated is copied without the remains of the attempt to inflate
 it

---
 src/tool1cd/UZLib.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 4f394cc..77d6d11 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -23,6 +23,7 @@
 #include <memory>
 
 #include "UZLib.h"
+#include "SystemClasses/TMemoryStream.hpp"
 
 #if !defined(_WIN32)
 #pragma package(smart_init)
@@ -121,7 +122,11 @@ void ZInflateStream(TStream* src, TStream* dst)
 		
 		strm.avail_in = static_cast<int>(src->Read(srcBuf.get(), CHUNKSIZE));
 
-		if (strm.avail_in == 0) break;
+		if (strm.avail_in == 0) {
+			if (strm.total_in == 0) break; // пустой поток
+			(void)inflateEnd(&strm);
+			throw ZError( "Input data was truncated" );
+		}
 
 		strm.next_in = srcBuf.get();
 
@@ -164,11 +169,14 @@ void ZInflateStream(TStream* src, TStream* dst)
 
 void ZInflateOrCopy(TStream *src, TStream *dst)
 {
+	TMemoryStream inflated;
 	try {
 
-		ZInflateStream(src, dst);
+		ZInflateStream(src, &inflated);
 
 	} catch (ZError &) {
 		dst->CopyFrom(src, 0);
+		return;
 	}
+	dst->CopyFrom(&inflated, 0);
 }
-- 
2.43.0


From 2baa3608f5f77d76f3379b41bbaedb0b493564d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 16/64] fix: -bf gives every image of a table a file of its
 own, named after the key without path separators

---
 src/tool1cd/Table.cpp | 70 ++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index be146f9..ca543b1 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -20,6 +20,8 @@
 */
 
 #include <string>
+#include <set>
+#include <cstring>
 #include <boost/filesystem.hpp>
 
 #include "Table.h"
@@ -873,6 +875,29 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	return readed;
 }
 
+//---------------------------------------------------------------------------
+// имя файла из значений ключевых полей: без разделителей пути, не длиннее 150 байт
+static std::string safe_file_name(const std::string &name)
+{
+	std::string result = name;
+	for (auto &c : result) {
+		if ((unsigned char)c < 0x20 || strchr("/\\:*?\"<>|", c)) {
+			c = '_';
+		}
+	}
+	if (result.size() > 150) {
+		size_t len = 150;
+		while (len && ((unsigned char)result[len] & 0xC0) == 0x80) {
+			len--;
+		}
+		result.resize(len);
+	}
+	if (result == "." || result == "..") {
+		result = "";
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool unpack) const
 {
@@ -880,7 +905,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	uint32_t j, numr, nr;
 	bool canwriteblob = false;
 	Index* curindex = nullptr;
-	int32_t repeat_count; // количество повторов имени записи подряд (для случая, если индекс не уникальный)
+	std::set<std::string> used_names; // имена уже записанных файлов (индекс может быть не уникальным)
 
 	char UnicodeHeader[3] = {'\xef', '\xbb', '\xbf'}; // BOM UTF-8
 	string part1 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"";
@@ -942,7 +967,6 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	msreg_g.Status(status);
 
 	recname = "";
-	repeat_count = 0;
 	bool dircreated = false;
 	boost::filesystem::path dir(_filename + ".blob");
 
@@ -956,14 +980,8 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		if(curindex) nr = curindex->get_numrec(j);
 		else nr = recordsindex[j];
 		std::shared_ptr<TableRecord> rec (get_record(nr));
-		if (image_count) {
-			std::string filename = get_file_name_for_record(rec.get());
-			if (EqualIC(filename, recname)) {
-				repeat_count++;
-			} else {
-				recname = filename;
-				repeat_count = 0;
-			}
+		if (blob_to_file && image_count) {
+			recname = get_file_name_for_record(rec.get());
 		}
 		for (auto field : fields) {
 			string outputvalue;
@@ -974,19 +992,13 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 
 			if (blob_to_file && field->get_type_manager()->get_type() == type_fields::tf_image) {
 				if(!dircreated) {
+					dircreated = true;
 					try
 					{
-						if(!directory_exists(dir, true))
-						{
-							dircreated = false;
-							canwriteblob = false;
-						} else {
-							dircreated = true;
-							canwriteblob = true;
-						}
+						canwriteblob = directory_exists(dir, true);
 					}
 					catch(...) {
-						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Warning)
+						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Error)
 							.with("Таблица", name)
 							.with("Путь", dir.string());
 					}
@@ -994,24 +1006,25 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 
 				if(canwriteblob)
 				{
-					outputvalue = recname;
-					if(image_count > 1)
+					outputvalue = safe_file_name(recname);
+					if(image_count > 1 || outputvalue.empty())
 					{
 						if (outputvalue.size()) {
 							outputvalue += "_";
 						}
 						outputvalue += field->get_name();
 					}
-					if(repeat_count)
-					{
-						outputvalue += "_";
-						outputvalue += repeat_count + 1;
+					std::string base_name = outputvalue;
+					for (int32_t n = 2; !used_names.insert(LowerCase(outputvalue)).second; n++) {
+						outputvalue = base_name + "_" + to_string(n);
 					}
 
-					dir /= outputvalue;
-					if(!field->save_blob_to_file(rec.get(), dir.string(), unpack)) {
+					if(!field->save_blob_to_file(rec.get(), (dir / outputvalue).string(), unpack)) {
+						used_names.erase(LowerCase(outputvalue));
 						outputvalue = "{NULL}";
 						output_is_null = true;
+					} else {
+						outputvalue = toXML(outputvalue);
 					}
 				}
 				else outputvalue = "{ERROR}";
@@ -2386,6 +2399,9 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 				s += "_";
 			}
 			Field* tmp_field = record.field;
+			if (rec->is_null_value(tmp_field)) {
+				continue;
+			}
 			std::string tmp_str = rec->get_string(tmp_field);
 
 			s += tmp_str;
-- 
2.43.0


From c81421c48ee52bef75ddfcb9fd34e9bf33e41c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 17/64] fix: -pb: empty values are written empty, the mask
 length of users.usr is unsigned and within the data, and only bad data counts
 as not deflated

---
 src/tool1cd/Field.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6ba11ab..8c4435a 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -280,7 +280,10 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			blob_stream->Seek(0, soFromBeginning);
 			blob_stream->Read(_bb, stream_size);
 
-			size_t xor_mask_size = _bb[0];
+			size_t xor_mask_size = (unsigned char)_bb[0];
+			if (xor_mask_size >= stream_size) {
+				xor_mask_size = stream_size - 1;
+			}
 			char *_xor_mask = &_bb[1];
 			char *_xor_buf = &_xor_mask[xor_mask_size];
 			size_t data_size = stream_size - xor_mask_size - 1;
@@ -311,7 +314,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				delete blob_stream;
 				blob_stream = nullptr;
 			}
-			catch (...)
+			catch (ZError &)
 			{
 				_sx2 = blob_stream;
 				delete _s;
@@ -334,7 +337,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 					delete _sx;
 					_sx = nullptr;
 				}
-				catch (...)
+				catch (ZError &)
 				{
 					_sx2 = _sx;
 					_sx = nullptr;
@@ -343,8 +346,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				}
 			}
 
-			V8Catalog *cat = new V8Catalog(_sx2, zippedContainer, true);
-			if(!cat->get_first())
+			// пустой поток конструктор каталога превратил бы в пустой каталог
+			V8Catalog *cat = _sx2->GetSize() ? new V8Catalog(_sx2, zippedContainer, true) : nullptr;
+			if(!cat || !cat->get_first())
 			{
 				TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
 				temp_stream.CopyFrom(_sx2, 0);
@@ -369,7 +373,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			bool isOK = true;
 			if(_buf[0] == 1) // неупакованное хранилище
 			{
-				_s2->CopyFrom(blob_stream, blob_stream->GetSize() - 2);
+				if(blob_stream->GetSize() > 2) _s2->CopyFrom(blob_stream, blob_stream->GetSize() - 2);
 			}
 			else
 			{
@@ -383,7 +387,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 						{
 							ZInflateStream(blob_stream, _s2);
 						}
-						catch(...)
+						catch(ZError &)
 						{
 							isOK = false;
 						}
@@ -397,7 +401,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				else
 				{
 					_s->SetSize(0);
-					_s->CopyFrom(_s2, _s2->GetSize() - 8);
+					if(_s2->GetSize() > 8) _s->CopyFrom(_s2, _s2->GetSize() - 8);
 				}
 
 			}
@@ -405,7 +409,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			if(isOK)
 			{
 				int64_t len1C = *(int64_t*)_buf;
-				if(_s->GetSize() > len1C)
+				if(len1C >= 0 && _s->GetSize() > len1C)
 				{
 					_s->Seek(len1C, (TSeekOrigin)soFromBeginning);
 					_s2->SetSize(0);
@@ -414,10 +418,10 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 					if(_s2->Read(_buf, 12) >= 12)
 					{
 						len1C = *(int64_t*)&_buf[4];
-						if(len1C <= _s2->GetSize() - 12)
+						if(len1C >= 0 && len1C <= _s2->GetSize() - 12)
 						{
 							_s->SetSize(0);
-							_s->CopyFrom(_s2, len1C);
+							if(len1C) _s->CopyFrom(_s2, len1C);
 						}
 					}
 				}
-- 
2.43.0


From 968ad105f330175ef0e194a37f384eeab4091205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 18/64] fix: the fields of a container block header are eight
 digits without a terminator

---
 src/tool1cd/cfapi/APIcfBase.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index b18a80c..c61912d 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -31,11 +31,14 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 	return (unsigned)(windowsTicks / WINDOWS_TICK - SEC_TO_UNIX_EPOCH);
 }
 
-int32_t stBlockHeader::get_data_size() const {
-	string hex("0x");
-	hex.append(data_size_hex);
+// поле заголовка блока - 8 шестнадцатеричных цифр без завершающего нуля
+static int32_t from_hex_field(const char (&field)[8])
+{
+	return static_cast<int32_t>(std::stoul(string(field, 8), nullptr, 16));
+}
 
-	return std::stoi(hex, nullptr, 16);
+int32_t stBlockHeader::get_data_size() const {
+	return from_hex_field(data_size_hex);
 }
 
 void stBlockHeader::set_data_size(int32_t value) {
@@ -48,10 +51,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 }
 
 int32_t stBlockHeader::get_page_size() const {
-	string hex("0x");
-	hex.append(page_size_hex);
-
-	return std::stoi(hex, nullptr, 16);
+	return from_hex_field(page_size_hex);
 }
 
 void stBlockHeader::set_page_size(int32_t value) {
@@ -64,10 +64,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 }
 
 int32_t stBlockHeader::get_next_page_addr() const {
-	string hex("0x");
-	hex.append(next_page_addr_hex);
-
-	return std::stoi(hex, nullptr, 16);
+	return from_hex_field(next_page_addr_hex);
 }
 
 void stBlockHeader::set_next_page_addr(int32_t value) {
-- 
2.43.0


From a6d8c9b64b401e658a8cfd3451a7d0feb792b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 19/64] fix: reading a container block checks every page and
 does not run in circles

---
 src/tool1cd/cfapi/V8Catalog.cpp | 103 ++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 45 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6ba6e48..9b12085 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -24,62 +24,70 @@
 #include "V8Catalog.h"
 #include "../UZLib.h"
 #include "../Common.h"
+#include "../DetailedException.h"
 #include "../SystemClasses/String.hpp"
 
 using namespace std;
 using namespace System;
 
 //---------------------------------------------------------------------------
-// читает блок из потока каталога stream_from, собирая его по страницам
-TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullptr)
+// читает заголовок блока по указанному адресу
+static void read_block_header(TStream* stream_from, int start, stBlockHeader &block_header)
 {
-	stBlockHeader block_header;
-
-	if(!stream_to) {
-		stream_to = new TMemoryStream;
+	int64_t size = stream_from->GetSize();
+	if(start < static_cast<int64_t>(stFileHeader::size()) || start + static_cast<int64_t>(stBlockHeader::size()) > size) {
+		throw DetailedException("Ошибка чтения контейнера. Адрес блока за пределами контейнера")
+			.add_detail("Адрес", start);
 	}
 
-	stream_to->Seek(0, soFromBeginning);
-	stream_to->SetSize(0);
+	stream_from->Seek(start, soFromBeginning);
+	stream_from->ReadBuffer(&block_header, stBlockHeader::size());
 
-	if( start < 0
-			|| start == LAST_BLOCK
-			|| start > stream_from->GetSize() ) {
-		return stream_to;
+	if(!block_header.is_correct()) {
+		throw DetailedException("Ошибка чтения контейнера. Неверный заголовок блока")
+			.add_detail("Адрес", start);
 	}
+}
 
-	stream_from->Seek(start, soFromBeginning);
-	stream_from->Read(&block_header, stBlockHeader::size());
+// читает блок из потока каталога stream_from в stream_to, собирая его по страницам
+static void read_block(TStream* stream_from, int start, TStream* stream_to)
+{
+	stBlockHeader block_header;
 
-	int32_t len = block_header.get_data_size();
+	stream_to->Seek(0, soFromBeginning);
+	stream_to->SetSize(0);
 
-	if(len == 0) {
-		return stream_to;
+	if(start <= 0 || start == LAST_BLOCK) {
+		return;
 	}
 
-	int32_t curlen = block_header.get_page_size();
-	start = block_header.get_next_page_addr();
+	read_block_header(stream_from, start, block_header);
 
-	int32_t readlen = std::min(len, curlen);
-	stream_to->CopyFrom(stream_from, readlen);
+	int32_t rest = block_header.get_data_size();
 
-	int32_t pos = readlen;
+	// Пустые страницы цепочки возможны, но их не больше, чем помещается в контейнер
+	int64_t max_pages = stream_from->GetSize() / stBlockHeader::size() + 1;
 
-	while(start != LAST_BLOCK) {
-		stream_from->Seek(start, soFromBeginning);
-		stream_from->Read(&block_header, block_header.size());
-
-		curlen = block_header.get_page_size();
-
-		start  = block_header.get_next_page_addr();
+	while(rest > 0) {
+		int32_t readlen = std::min(rest, block_header.get_page_size());
+		if(readlen > 0) {
+			if(readlen > stream_from->GetSize() - stream_from->GetPosition()
+					|| stream_to->CopyFrom(stream_from, readlen) != readlen) {
+				throw DetailedException("Ошибка чтения контейнера. Страница выходит за пределы контейнера")
+					.add_detail("Адрес", start);
+			}
+			rest -= readlen;
+		}
+		if(rest == 0) {
+			break;
+		}
 
-		readlen = std::min(len - pos, curlen);
-		stream_to->CopyFrom(stream_from, readlen);
-		pos += readlen;
+		start = block_header.get_next_page_addr();
+		if(start == LAST_BLOCK || --max_pages == 0) {
+			throw DetailedException("Ошибка чтения контейнера. Цепочка страниц короче данных");
+		}
+		read_block_header(stream_from, start, block_header);
 	}
-
-	return stream_to;
-
 }
 
 // определение каталога
@@ -321,7 +329,8 @@ void V8Catalog::initialize()
 	try {
 		if(data->GetSize() > stFileHeader::size()) {
 			// TODO: как это работает?
-			unique_ptr<TStream> _fat( read_block(data, stFileHeader::size()) );
+			unique_ptr<TStream> _fat( new TMemoryStream );
+			read_block(data, stFileHeader::size(), _fat.get());
 			_fat->Seek(0, soFromBeginning);
 			int64_t count_files = _fat->GetSize() / stElemAddr::size();
 
@@ -453,23 +462,27 @@ V8Catalog* V8Catalog::get_parent_catalog()
 // чтение блока данных
 TStream* V8Catalog::read_datablock(int start)
 {
-	TStream* stream;
-	TStream* stream2;
-	if(!start) return new TMemoryStream;
+	unique_ptr<TStream> stream( new TMemoryStream );
+	if(!start) return stream.release();
 	Lock->Acquire();
-	stream = read_block(data, start);
+	try {
+		read_block(data, start, stream.get());
+	}
+	catch(...) {
+		Lock->Release();
+		throw;
+	}
 	Lock->Release();
 
 	if(zipped)
 	{
-		stream2 = new TMemoryStream;
+		unique_ptr<TStream> stream2( new TMemoryStream );
 		stream->Seek(0, soFromBeginning);
-		ZInflateStream(stream, stream2);
-		delete stream;
+		ZInflateStream(stream.get(), stream2.get());
+		return stream2.release();
 	}
-	else stream2 = stream;
 
-	return stream2;
+	return stream.release();
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From daf7390ce627250baf6a3d4d064654d42afc571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 20/64] fix: recognising a container does not read beyond short
 data nor wrap around on the free page address

---
 src/tool1cd/cfapi/V8Catalog.cpp | 86 +++++++++++++--------------------
 src/tool1cd/cfapi/V8Catalog.h   |  1 +
 src/tool1cd/cfapi/V8File.cpp    | 55 +--------------------
 3 files changed, 36 insertions(+), 106 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 9b12085..ccd6fc2 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -93,69 +93,51 @@ static void read_block(TStream* stream_from, int start, TStream* stream_to)
 // определение каталога
 bool V8Catalog::is_catalog() const
 {
-	int64_t _filelen;
-	uint32_t _startempty = (uint32_t)(-1);
-	char _t[stBlockHeader::size()];
-
 	Lock->Acquire();
-	if(iscatalogdefined)
-	{
-		Lock->Release();
-		return iscatalog;
+	if(!iscatalogdefined) {
+		iscatalogdefined = true;
+		iscatalog = false;
+		iscatalog = is_catalog_data(data);
 	}
-	iscatalogdefined = true;
-	iscatalog = false;
+	Lock->Release();
+	return iscatalog;
+}
+
+// определяет по содержимому потока, каталог ли это
+bool V8Catalog::is_catalog_data(TStream* stream)
+{
+	stBlockHeader block_header;
 
 	// эмпирический метод?
-	_filelen = data->GetSize();
-	if(_filelen == stFileHeader::size())
-	{
-		data->Seek(0, soFromBeginning);
-		data->Read(_t, stFileHeader::size());
-		if(memcmp(_t, _EMPTY_CATALOG_TEMPLATE, stFileHeader::size()) != 0)
-		{
-			Lock->Release();
-			return false;
-		}
-		else
-		{
-			iscatalog = true;
-			Lock->Release();
-			return true;
-		}
+	int64_t _filelen = stream->GetSize();
+	if(_filelen == stFileHeader::size()) {
+		char _t[stFileHeader::size()];
+		stream->Seek(0, soFromBeginning);
+		return stream->Read(_t, stFileHeader::size()) == stFileHeader::size()
+			&& memcmp(_t, _EMPTY_CATALOG_TEMPLATE, stFileHeader::size()) == 0;
 	}
 
-	data->Seek(0, soFromBeginning);
-	data->Read(&_startempty, 4);
-	if(_startempty != LAST_BLOCK){
-		if(_startempty + 31 >= _filelen)
-		{
-			Lock->Release();
+	if(_filelen < (stBlockHeader::size() + stFileHeader::size())) {
+		return false;
+	}
+
+	uint32_t _startempty = 0;
+	stream->Seek(0, soFromBeginning);
+	stream->Read(&_startempty, 4);
+	if(_startempty != LAST_BLOCK) {
+		if(static_cast<int64_t>(_startempty) + stBlockHeader::size() > _filelen) {
 			return false;
 		}
-		data->Seek(_startempty, soFromBeginning);
-		data->Read(_t, 31);
-		if(_t[0] != 0xd || _t[1] != 0xa || _t[10] != 0x20 || _t[19] != 0x20 || _t[28] != 0x20 || _t[29] != 0xd || _t[30] != 0xa)
-		{
-			Lock->Release();
+		stream->Seek(_startempty, soFromBeginning);
+		stream->Read(&block_header, stBlockHeader::size());
+		if(!block_header.is_correct()) {
 			return false;
 		}
 	}
-	if(_filelen < (stBlockHeader::size() + stFileHeader::size()) )
-	{
-		Lock->Release();
-		return false;
-	}
-	data->Seek(stFileHeader::size(), soFromBeginning);
-	data->Read(_t, 31);
-	if(_t[0] != 0xd || _t[1] != 0xa || _t[10] != 0x20 || _t[19] != 0x20 || _t[28] != 0x20 || _t[29] != 0xd || _t[30] != 0xa)
-	{
-		Lock->Release();
-		return false;
-	}
-	iscatalog = true;
-	Lock->Release();
-	return true;
+
+	stream->Seek(stFileHeader::size(), soFromBeginning);
+	stream->Read(&block_header, stBlockHeader::size());
+	return block_header.is_correct();
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/cfapi/V8Catalog.h b/src/tool1cd/cfapi/V8Catalog.h
index ec51b01..973d3ff 100644
--- a/src/tool1cd/cfapi/V8Catalog.h
+++ b/src/tool1cd/cfapi/V8Catalog.h
@@ -41,6 +41,7 @@ public:
 	V8Catalog(TStream* stream, bool _zipped, bool leave_stream = false); // создать каталог из потока
 
 	bool is_catalog() const;
+	static bool is_catalog_data(TStream* stream); // определяет по содержимому потока, каталог ли это
 
 	~V8Catalog();
 
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 38846ed..5bb4a22 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -315,10 +315,6 @@ void V8File::set_file_name(const string &_name)
 // определение "каталога"
 bool V8File::is_catalog()
 {
-	int64_t _filelen;
-	uint32_t _startempty = (uint32_t)(-1);
-	char _t[stBlockHeader::size()];
-
 	Lock->Acquire();
 	if(iscatalog == FileIsCatalog::unknown){
 		// эмпирический метод?
@@ -327,56 +323,7 @@ bool V8File::is_catalog()
 			Lock->Release();
 			return false;
 		}
-		_filelen = data->GetSize();
-		if(_filelen == stFileHeader::size())
-		{
-			data->Seek(0, soFromBeginning);
-			data->Read(_t, stFileHeader::size());
-			if(memcmp(_t, _EMPTY_CATALOG_TEMPLATE, stFileHeader::size()) != 0)
-			{
-				iscatalog = FileIsCatalog::no;
-				Lock->Release();
-				return false;
-			}
-			else
-			{
-				iscatalog = FileIsCatalog::yes;
-				Lock->Release();
-				return true;
-			}
-		}
-
-		data->Seek(0, soFromBeginning);
-		data->Read(&_startempty, 4);
-		if(_startempty != LAST_BLOCK){
-			if(_startempty + 31 >= _filelen){
-				iscatalog = FileIsCatalog::no;
-				Lock->Release();
-				return false;
-			}
-			data->Seek(_startempty, soFromBeginning);
-			data->Read(_t, 31);
-			if(_t[0] != 0xd || _t[1] != 0xa || _t[10] != 0x20 || _t[19] != 0x20 || _t[28] != 0x20 || _t[29] != 0xd || _t[30] != 0xa){
-				iscatalog = FileIsCatalog::no;
-				Lock->Release();
-				return false;
-			}
-		}
-		if(_filelen < (stBlockHeader::size() + stFileHeader::size()) ){
-			iscatalog = FileIsCatalog::no;
-			Lock->Release();
-			return false;
-		}
-		data->Seek(stFileHeader::size(), soFromBeginning);
-		data->Read(_t, 31);
-		if(_t[0] != 0xd || _t[1] != 0xa || _t[10] != 0x20 || _t[19] != 0x20 || _t[28] != 0x20 || _t[29] != 0xd || _t[30] != 0xa){
-			iscatalog = FileIsCatalog::no;
-			Lock->Release();
-			return false;
-		}
-		iscatalog = FileIsCatalog::yes;
-		Lock->Release();
-		return true;
+		iscatalog = V8Catalog::is_catalog_data(data) ? FileIsCatalog::yes : FileIsCatalog::no;
 	}
 	Lock->Release();
 	return iscatalog == FileIsCatalog::yes;
-- 
2.43.0


From 341b1b9d07f883474938d73d1487a0882f94f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 21/64] fix: names and times of container files are read as
 stored, a broken container is left without files

---
 src/tool1cd/cfapi/V8Catalog.cpp | 24 ++++++++++++++++--------
 src/tool1cd/cfapi/V8File.cpp    |  6 ++++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index ccd6fc2..25c8777 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -294,7 +294,6 @@ V8Catalog::V8Catalog(V8File* f) // создать каталог из файла
 void V8Catalog::initialize()
 {
 	_destructed = false;
-	char* _temp_buf;
 
 	V8File* _prev;
 	V8File* _file;
@@ -322,17 +321,25 @@ void V8Catalog::initialize()
 				_fat->Read(&elem_addr, stElemAddr::size());
 				read_block(data, elem_addr.header_addr, file_data.get());
 				file_data->Seek(0, soFromBeginning);
-				auto header_size = file_data->GetSize();
-				_temp_buf = new char[header_size];
-				file_data->Read(_temp_buf, header_size);
+				size_t header_size = file_data->GetSize();
 				// TODO: константы 20, 8
+				if(header_size < 20) {
+					throw DetailedException("Ошибка чтения контейнера. Неверный заголовок файла");
+				}
+				vector<uint8_t> _temp_buf(header_size);
+				file_data->Read(_temp_buf.data(), header_size);
 
-				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
-				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)_temp_buf + 8;
+				// имя заканчивается нулевым символом или вместе с заголовком
+				size_t name_end = 20;
+				while(name_end + 1 < header_size && (_temp_buf[name_end] || _temp_buf[name_end + 1])) {
+					name_end += 2;
+				}
+				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf.begin() + 20, _temp_buf.begin() + name_end));
+				int64_t time_create, time_modify;
+				memcpy(&time_create, &_temp_buf[0], sizeof(time_create));
+				memcpy(&time_modify, &_temp_buf[8], sizeof(time_modify));
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
-				delete[] _temp_buf;
 
 				if(!_prev) {
 					first = _file;
@@ -355,6 +362,7 @@ void V8Catalog::initialize()
 		iscatalog = false;
 		iscatalogdefined = true;
 
+		_prev = nullptr;
 		first = nullptr;
 		last = nullptr;
 		zipped = false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 5bb4a22..ff4efdd 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -543,6 +543,12 @@ V8File::~V8File()
 
 	if(parent)
 	{
+		V8Catalog::V8Files& files = parent->v8files();
+		auto it = files.find(LowerCase(name));
+		if(it != files.end() && it->second == this) {
+			files.erase(it);
+		}
+
 		if(next)
 		{
 			next->Lock->Acquire();
-- 
2.43.0


From c1a45e83781aa71a5d5cb15f958a8dc6674ffe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 22/64] fix: deleting a file of a container does not use it
 afterwards, nor does a file delete its streams twice

---
 src/tool1cd/cfapi/TV8FileStream.cpp | 4 ++--
 src/tool1cd/cfapi/V8Catalog.cpp     | 3 ++-
 src/tool1cd/cfapi/V8File.cpp        | 8 +++-----
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/cfapi/TV8FileStream.cpp b/src/tool1cd/cfapi/TV8FileStream.cpp
index 3be2d65..100117d 100644
--- a/src/tool1cd/cfapi/TV8FileStream.cpp
+++ b/src/tool1cd/cfapi/TV8FileStream.cpp
@@ -32,8 +32,8 @@ TV8FileStream::TV8FileStream(V8File* f, bool ownfile) : TStream(), file(f), own(
 // декструктор
 TV8FileStream::~TV8FileStream()
 {
-	if(own) delete file;
-	else file->streams().erase(this);
+	file->streams().erase(this);
+	if(own && !file->get_destructed()) delete file;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 25c8777..aad727b 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -387,11 +387,12 @@ void V8Catalog::delete_file(const string &FileName)
 	V8File* f = first;
 	while(f)
 	{
+		V8File* next = f->get_next();
 		if (EqualIC(f->get_file_name(), FileName)) {
 			f->delete_file();
 			delete f;
 		}
-		f = f->get_next();
+		f = next;
 	}
 	Lock->Release();
 }
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index ff4efdd..33448ae 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -530,14 +530,12 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 // деструктор
 V8File::~V8File()
 {
-	std::set<TV8FileStream*>::iterator istreams;
-
 	Lock->Acquire();
 	_destructed = true;
-	for(istreams = _streams.begin(); istreams != _streams.end(); ++istreams) {
-		delete *istreams;
+	// поток при удалении исключает себя из _streams
+	while(!_streams.empty()) {
+		delete *_streams.begin();
 	}
-	_streams.clear();
 
 	close();
 
-- 
2.43.0


From 9c2a70b2863fd98270cc9e7d3fdb2b4054a4afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 23/64] fix: a container page of zero size is not overrun when
 its block is rewritten

---
 src/tool1cd/cfapi/V8Catalog.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index aad727b..d42b534 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -537,7 +537,7 @@ int V8Catalog::write_datablock(TStream* block, int start, bool _zipped, int len)
 		else
 		{
 			stream = new TMemoryStream;
-			stream->CopyFrom(block, len);
+			if(len > 0) stream->CopyFrom(block, len);
 			stream2 = new TMemoryStream;
 			stream->Seek(0, soFromBeginning);
 			ZDeflateStream(stream, stream2);
@@ -581,7 +581,6 @@ int64_t V8Catalog::get_nextblock(int64_t start)
 int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int len)
 {
 	stBlockHeader block_header;
-	char* _t;
 	int firststart, nextstart, blocklen, curlen;
 	bool isfirstblock = true;
 	bool addwrite = false; // признак, что надо дозаписать файл при использовании размера страницы по умолчанию
@@ -589,8 +588,8 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 	Lock->Acquire();
 	if(data->GetSize() == stFileHeader::size() && start != stFileHeader::size()) // если каталог пустой, надо выделить первую страницу!!!
 	{
-		TMemoryStream* _ts = new TMemoryStream;
-		write_block(_ts, stFileHeader::size(), true);
+		TMemoryStream _ts;
+		write_block(&_ts, stFileHeader::size(), true);
 	}
 
 	if(len == -1)
@@ -646,11 +645,13 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 
 		data->Seek(start, soFromBeginning);
 		data->WriteBuffer(&block_header, stBlockHeader::size());
-		data->CopyFrom(block, curlen);
+		// при curlen == 0 (страница нулевого размера) CopyFrom скопировал бы поток целиком
+		if(curlen > 0 && data->CopyFrom(block, curlen) != curlen) {
+			throw DetailedException("Ошибка записи контейнера. Не хватает данных");
+		}
 		if(addwrite) {
-			_t = new char [blocklen - len];
-			memset(_t, 0, blocklen - len);
-			data->WriteBuffer(_t, blocklen - len);
+			vector<char> _t(blocklen - len, 0);
+			data->WriteBuffer(_t.data(), _t.size());
 			addwrite = false;
 		}
 
-- 
2.43.0


From 3acc380ba156320c08d24e11a916ce09004a9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 24/64] fix: a container file that was created or renamed but
 never opened is stored, and the file table follows its address

---
 src/tool1cd/cfapi/V8File.cpp | 92 ++++++++++++++++++++----------------
 src/tool1cd/cfapi/V8File.h   |  3 ++
 2 files changed, 55 insertions(+), 40 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 33448ae..77af8dd 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -307,6 +307,14 @@ std::string V8File::get_full_name()
 // устанавливает имя
 void V8File::set_file_name(const string &_name)
 {
+	if(parent) {
+		V8Catalog::V8Files& files = parent->v8files();
+		auto it = files.find(LowerCase(name));
+		if(it != files.end() && it->second == this) {
+			files.erase(it);
+		}
+		files[LowerCase(_name)] = this;
+	}
 	name = _name;
 	is_headermodified = true;
 }
@@ -431,13 +439,47 @@ bool V8File::open(){
 }
 
 //---------------------------------------------------------------------------
-// закрыть файл
-void V8File::close(){
+// записать данные в каталог
+void V8File::store_data(TStream* Stream, int Length)
+{
+	int start = parent->write_datablock(Stream, start_data, _selfzipped, Length);
+	if(start != start_data) {
+		start_data = start;
+		parent->fatmodified(true);
+	}
+}
+
+//---------------------------------------------------------------------------
+// записать заголовок в каталог
+void V8File::store_header()
+{
 	uint32_t zero4b = 0;
 
+	TMemoryStream hs;
+	_time_create.write_to_stream(&hs);
+	_time_modify.write_to_stream(&hs);
+	hs.Write(&zero4b, 4);
+	auto tb = SysUtils::TEncoding::Unicode->fromUtf8(name);
+	hs.Write(tb.data(), tb.size());
+	hs.Write(&zero4b, 4);
+
+	int start = parent->write_block(&hs, start_header, false);
+	if(start != start_header) {
+		start_header = start;
+		parent->fatmodified(true);
+	}
+}
+
+//---------------------------------------------------------------------------
+// закрыть файл
+void V8File::close(){
 	if(!parent) return;
 	Lock->Acquire();
-	if(!is_opened) return;
+	// новый или переименованный файл должен быть записан, даже если его не открывали
+	if(!is_opened && !(is_headermodified && !parent->data_empty() && open())) {
+		Lock->Release();
+		return;
+	}
 
 	if( self && !self->is_destructed() ) {
 		delete self;
@@ -450,20 +492,11 @@ void V8File::close(){
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				store_data(data);
 			}
 			if(is_headermodified)
 			{
-				TMemoryStream* hs = new TMemoryStream();
-				_time_create.write_to_stream(hs);
-				_time_modify.write_to_stream(hs);
-				hs->Write(&zero4b, 4);
-				auto tb = SysUtils::TEncoding::Unicode->fromUtf8(name);
-				hs->Write(tb.data(), tb.size());
-				hs->Write(&zero4b, 4);
-
-				start_header = parent->write_block(hs, start_header, false);
-				delete hs;
+				store_header();
 			}
 			parent->Release();
 		}
@@ -481,8 +514,6 @@ void V8File::close(){
 // записать и закрыть
 int64_t V8File::write_and_close(TStream* Stream, int Length)
 {
-	int32_t _4bzero = 0;
-
 	Lock->Acquire();
 	if (!try_open())
 	{
@@ -503,17 +534,9 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 	data = nullptr;
 
 	if (!parent->data_empty()) {
-		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
-
 		parent->Acquire();
-		start_data = parent->write_datablock(Stream, start_data, _selfzipped, Length);
-		TMemoryStream hs;
-		_time_create.write_to_stream(&hs);
-		_time_modify.write_to_stream(&hs);
-		hs.Write(&_4bzero, 4);
-		hs.Write(wname.data(), wname.size());
-		hs.Write(&_4bzero, 4);
-		start_header = parent->write_block(&hs, start_header, false);
+		store_data(Stream, Length);
+		store_header();
 		parent->Release();
 	}
 	iscatalog = FileIsCatalog::unknown;
@@ -579,8 +602,6 @@ V8File::~V8File()
 // сброс
 void V8File::flush()
 {
-	uint32_t zero4b = 0;
-
 	Lock->Acquire();
 	if(flushed)
 	{
@@ -592,7 +613,7 @@ void V8File::flush()
 		Lock->Release();
 		return;
 	}
-	if(!is_opened)
+	if(!is_opened && !(is_headermodified && !parent->data_empty() && open()))
 	{
 		Lock->Release();
 		return;
@@ -607,21 +628,12 @@ void V8File::flush()
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				store_data(data);
 				_datamodified = false;
 			}
 			if(is_headermodified)
 			{
-				TMemoryStream* hs = new TMemoryStream();
-				_time_create.write_to_stream(hs);
-				_time_modify.write_to_stream(hs);
-				hs->Write(&zero4b, 4);
-				auto tb = SysUtils::TEncoding::Unicode->fromUtf8(name);
-				hs->Write(tb.data(), tb.size());
-				hs->Write(&zero4b, 4);
-
-				start_header = parent->write_block(hs, start_header, false);
-				delete hs;
+				store_header();
 				is_headermodified = false;
 			}
 			parent->Release();
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index fe2e869..74becaf 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -127,6 +127,9 @@ private:
 	bool _selfzipped;        // Признак, что файл является запакованным независимо от признака zipped каталога
 	TV8FileStreams _streams;
 
+	void store_data(TStream* Stream, int Length = -1); // записать данные в каталог
+	void store_header(); // записать заголовок в каталог
+
 	inline bool try_open() { return (!is_opened) ? open() : true; }
 };
 
-- 
2.43.0


From c647c0ef4cf94f1d36b8ff3a97da322315e6da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 25/64] fix: a container that cannot be written reports the
 error instead of losing it silently or terminating

---
 src/tool1cd/cfapi/V8Catalog.cpp | 155 +++++++++++++-------------------
 src/tool1cd/cfapi/V8Catalog.h   |   9 +-
 src/tool1cd/cfapi/V8File.cpp    |  11 ++-
 3 files changed, 76 insertions(+), 99 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index d42b534..1d2948a 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -24,12 +24,15 @@
 #include "V8Catalog.h"
 #include "../UZLib.h"
 #include "../Common.h"
+#include "../MessageRegistration.h"
 #include "../DetailedException.h"
 #include "../SystemClasses/String.hpp"
 
 using namespace std;
 using namespace System;
 
+extern Registrator msreg_g;
+
 //---------------------------------------------------------------------------
 // читает заголовок блока по указанному адресу
 static void read_block_header(TStream* stream_from, int start, stBlockHeader &block_header)
@@ -676,82 +679,42 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 // деструктор
 V8Catalog::~V8Catalog()
 {
-	stElemAddr elem_addr;
-	V8File* f;
-	TMemoryStream* fat = nullptr;
-
 	Lock->Acquire();
 	_destructed = true;
 
-	f = first;
-	while(f)
-	{
-		f->close();
-		f = f->get_next();
-	}
-
-	if(data)
-	{
-		if(_fatmodified)
+	try {
+		V8File* f = first;
+		while(f)
 		{
-			try
-			{
-				fat = new TMemoryStream;
-				elem_addr.fffffff = LAST_BLOCK;
-				f = first;
-				while(f)
-				{
-					elem_addr.header_addr = f->get_start_header();
-					elem_addr.data_addr = f->get_start_data();
-					fat->WriteBuffer(&elem_addr, stElemAddr::size());
-					f = f->get_next();
-				}
-				write_block(fat, stFileHeader::size(), true);
-			}
-			catch(...)
-			{
-			}
-			delete fat;
+			f->close();
+			f = f->get_next();
 		}
-	}
 
-	while(first) delete first;
+		write_changes();
 
-	if(data)
-	{
-		if(is_emptymodified)
-		{
-			data->Seek(0, soFromBeginning);
-			data->WriteBuffer(&file_header.next_page_addr, sizeof(file_header.next_page_addr));
-		}
-		if(is_modified)
-		{
-			file_header.storage_ver++;
-			data->Seek(8, soFromBeginning);
-			data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
+		if(file) {
+			if(is_modified) file->set_data_modified(true);
+			if(!file->get_destructed()) file->close();
 		}
 	}
-
-	if(file){
-		if(is_modified)
-		{
-			file->set_data_modified(true);
-		}
-		if(!file->get_destructed()) file->close();
+	catch(std::exception &e) {
+		// из деструктора исключение не выпустить, но о потере данных надо сообщить
+		msreg_g.AddError("Ошибка записи контейнера")
+			.with("Контейнер", get_full_name())
+			.with("Ошибка", string(e.what()));
+		if(!file && !leave_data) delete data;
+		data = nullptr; // недописанное уже не дописать
 	}
-	else
+
+	while(first) delete first;
+
+	if(!file)
 	{
 		if(is_cfu)
 		{
-			if(data && cfu && is_modified)
-			{
-				data->Seek(0, soFromBeginning);
-				cfu->Seek(0, soFromBeginning);
-				ZDeflateStream(data, cfu);
-			}
 			delete data;
 			data = nullptr;
-			if(cfu && !leave_data){
+			if(!leave_data){
 				delete cfu;
 				cfu = nullptr;
 			}
@@ -828,9 +791,6 @@ bool V8Catalog::isOpen() const
 // сбросить
 void V8Catalog::Flush()
 {
-	stElemAddr elem_addr;
-	V8File* f;
-
 	Lock->Acquire();
 	if(flushed)
 	{
@@ -839,28 +799,52 @@ void V8Catalog::Flush()
 	}
 	flushed = true;
 
-	f = first;
-	while(f)
-	{
-		f->flush();
-		f = f->get_next();
+	try {
+		V8File* f = first;
+		while(f)
+		{
+			f->flush();
+			f = f->get_next();
+		}
+
+		write_changes();
+
+		if(file) {
+			if(is_modified) file->set_data_modified(true);
+			file->flush();
+		}
+	}
+	catch(...) {
+		flushed = false;
+		Lock->Release();
+		throw;
 	}
 
+	is_modified = false;
+	flushed = false;
+	Lock->Release();
+}
+
+//---------------------------------------------------------------------------
+// записать изменения таблицы файлов и заголовка каталога
+void V8Catalog::write_changes()
+{
 	if(data)
 	{
 		if(_fatmodified)
 		{
-			TMemoryStream* fat = new TMemoryStream;
+			stElemAddr elem_addr;
+			TMemoryStream fat;
 			elem_addr.fffffff = LAST_BLOCK;
-			f = first;
+			V8File* f = first;
 			while(f)
 			{
 				elem_addr.header_addr = f->get_start_header();
 				elem_addr.data_addr = f->get_start_data();
-				fat->WriteBuffer(&elem_addr, stElemAddr::size());
+				fat.WriteBuffer(&elem_addr, stElemAddr::size());
 				f = f->get_next();
 			}
-			write_block(fat, stFileHeader::size(), true);
+			write_block(&fat, stFileHeader::size(), true);
 			_fatmodified = false;
 		}
 
@@ -878,29 +862,12 @@ void V8Catalog::Flush()
 		}
 	}
 
-	if(file){
-		if(is_modified)
-		{
-			file->set_data_modified(true);
-		}
-		file->flush();
-	}
-	else
+	if(!file && is_cfu && data && cfu && is_modified)
 	{
-		if(is_cfu)
-		{
-			if(data && cfu && is_modified)
-			{
-				data->Seek(0, soFromBeginning);
-				cfu->Seek(0, soFromBeginning);
-				ZDeflateStream(data, cfu);
-			}
-		}
+		data->Seek(0, soFromBeginning);
+		cfu->Seek(0, soFromBeginning);
+		ZDeflateStream(data, cfu);
 	}
-
-	is_modified = false;
-	flushed = false;
-	Lock->Release();
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/cfapi/V8Catalog.h b/src/tool1cd/cfapi/V8Catalog.h
index 973d3ff..e945364 100644
--- a/src/tool1cd/cfapi/V8Catalog.h
+++ b/src/tool1cd/cfapi/V8Catalog.h
@@ -91,10 +91,11 @@ private:
 	System::Classes::TCriticalSection *Lock;
 	V8File* file;  // файл, которым является каталог. Для корневого каталога NULL
 	TStream* data; // поток каталога. Если file не NULL (каталог не корневой), совпадает с file->data
-	TStream* cfu;  // поток файла cfu. Существует только при is_cfu == true
+	TStream* cfu {nullptr};  // поток файла cfu. Существует только при is_cfu == true
 	void initialize();
-	V8File* first; // первый файл в каталоге
-	V8File* last;  // последний файл в каталоге
+	void write_changes(); // записать изменения таблицы файлов и заголовка каталога
+	V8File* first {nullptr}; // первый файл в каталоге
+	V8File* last {nullptr};  // последний файл в каталоге
 	std::map<std::string,V8File*> files; // Соответствие имен и файлов
 
 	stFileHeader file_header;
@@ -110,7 +111,7 @@ private:
 
 	bool _destructed; // признак, что работает деструктор
 	bool flushed;       // признак, что происходит сброс
-	bool leave_data;    // признак, что не нужно удалять основной поток (data) при уничтожении объекта
+	bool leave_data {false};    // признак, что не нужно удалять основной поток (data) при уничтожении объекта
 };
 
 #endif
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 77af8dd..c10a51b 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -560,7 +560,16 @@ V8File::~V8File()
 		delete *_streams.begin();
 	}
 
-	close();
+	try {
+		close();
+	}
+	catch(std::exception &e) {
+		msreg_g.AddError("Ошибка записи файла контейнера")
+			.with("Файл", get_full_name())
+			.with("Ошибка", string(e.what()));
+		delete data;
+		data = nullptr;
+	}
 
 	if(parent)
 	{
-- 
2.43.0


From 08342617883ed29ee07e07ae8ccdf57437cc2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 26/64] fix: changing the length of an internal file keeps its
 page table within bounds, also to zero and across allocation levels

---
 src/tool1cd/V8Object.cpp | 80 +++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..2ba17f6 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1054,7 +1054,6 @@ void V8Object::set_len(uint64_t _len)
 {
 
 	uint32_t num_data_blocks;
-	uint32_t num_blocks;
 	uint32_t cur_data_blocks;
 	uint32_t bl;
 	uint32_t i;
@@ -1079,22 +1078,23 @@ void V8Object::set_len(uint64_t _len)
 
 	if(type == v8objtype::data80)
 	{
+		if(_len > UINT_MAX)
+		{
+			throw DetailedException("Попытка установки длины файла больше максимальной")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Максимальная длина файла", UINT_MAX)
+				.add_detail("Запрошенная длина файла", to_hex_string(_len));
+		}
+
 		b = (v8ob*)base->get_block_for_write(block, true);
 		b->len = _len;
 
 		num_data_blocks = (_len + 0xfff) >> 12;
-		num_blocks = (num_data_blocks + 1022) / 1023;
 		cur_data_blocks = (len + 0xfff) >> 12;
 
-		if(numblocks != num_blocks)
-		{
-			blocks.clear();
-			blocks.resize(num_blocks);
-		}
-
 		if(num_data_blocks > cur_data_blocks)
 		{
-			objtab *ot;
+			objtab *ot = nullptr;
 			// Увеличение длины объекта
 			if(numblocks) ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
 			for(; cur_data_blocks < num_data_blocks; cur_data_blocks++)
@@ -1117,8 +1117,9 @@ void V8Object::set_len(uint64_t _len)
 		{
 			// Уменьшение длины объекта
 			objtab *ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+			while(cur_data_blocks > num_data_blocks)
 			{
+				cur_data_blocks--;
 				i = cur_data_blocks % 1023;
 				base->set_block_as_free(ot->blocks[i]);
 				ot->blocks[i] = 0;
@@ -1134,18 +1135,14 @@ void V8Object::set_len(uint64_t _len)
 		}
 
 		len = _len;
-		if(numblocks > 0) {
-			std::copy(std::begin(b->blocks),
-					  std::begin(b->blocks) + (numblocks * 4),
-					  blocks.begin());
-		}
+		blocks.assign(b->blocks, b->blocks + numblocks);
 
 		write_new_version();
 	}
 	else if(type == v8objtype::data838)
 	{
 		offsperpage = base->get_pagesize() / 4;
-		maxlen = base->get_pagesize() * offsperpage * (offsperpage - 6);
+		maxlen = static_cast<uint64_t>(base->get_pagesize()) * offsperpage * (offsperpage - 6);
 		if(_len > maxlen)
 		{
 			throw DetailedException("Попытка установки длины файла больше максимальной")
@@ -1158,38 +1155,27 @@ void V8Object::set_len(uint64_t _len)
 		bd->len = _len;
 
 		num_data_blocks = (_len + base->get_pagesize() - 1) / base->get_pagesize();
-		if(num_data_blocks > offsperpage - 6)
-		{
-			num_blocks = (num_data_blocks + offsperpage - 1) / offsperpage;
-			newfatlevel = 1;
-		}
-		else
-		{
-			num_blocks = num_data_blocks;
-			newfatlevel = 0;
-		}
+		newfatlevel = num_data_blocks > offsperpage - 6 ? 1 : 0;
 		cur_data_blocks = (len + base->get_pagesize() - 1) / base->get_pagesize();
 
-		if(numblocks != num_blocks)
-		{
-			blocks.clear();
-			blocks.resize(num_blocks);
-		}
-
 		if(num_data_blocks > cur_data_blocks)
 		{
 			// Увеличение длины объекта
+			bb = nullptr;
 			if(fatlevel == 0 && newfatlevel)
 			{
-				bl = base->get_free_block();
-				bb = (objtab838*)base->get_block_for_write(bl, false);
-				memcpy(bb->blocks, bd->blocks, numblocks * 4);
+				if(numblocks)
+				{
+					bl = base->get_free_block();
+					bb = (objtab838*)base->get_block_for_write(bl, false);
+					memcpy(bb->blocks, bd->blocks, numblocks * 4);
+					bd->blocks[0] = bl;
+					numblocks = 1;
+				}
 				fatlevel = newfatlevel;
 				bd->fatlevel = newfatlevel;
-				bd->blocks[0] = bl;
-				numblocks = 1;
 			}
-			else bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+			else if(fatlevel && numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 
 			if(fatlevel)
 			{
@@ -1215,6 +1201,7 @@ void V8Object::set_len(uint64_t _len)
 					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
 					bd->blocks[cur_data_blocks] = bl;
 				}
+				numblocks = num_data_blocks;
 			}
 		}
 		else if(num_data_blocks < cur_data_blocks)
@@ -1222,9 +1209,10 @@ void V8Object::set_len(uint64_t _len)
 			// Уменьшение длины объекта
 			if(fatlevel)
 			{
-				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					i = cur_data_blocks % offsperpage;
 					base->set_block_as_free(bb->blocks[i]);
 					bb->blocks[i] = 0;
@@ -1232,14 +1220,15 @@ void V8Object::set_len(uint64_t _len)
 					{
 						base->set_block_as_free(bd->blocks[--numblocks]);
 						bd->blocks[numblocks] = 0;
-						if(numblocks) bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+						if(numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 					}
 				}
 			}
 			else
 			{
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					base->set_block_as_free(bd->blocks[cur_data_blocks]);
 					bd->blocks[cur_data_blocks] = 0;
 				}
@@ -1254,6 +1243,7 @@ void V8Object::set_len(uint64_t _len)
 					memcpy(bd->blocks, bb->blocks, num_data_blocks * 4);
 					base->set_block_as_free(bl);
 				}
+				numblocks = num_data_blocks;
 				fatlevel = 0;
 				bd->fatlevel = 0;
 			}
@@ -1261,11 +1251,7 @@ void V8Object::set_len(uint64_t _len)
 		}
 
 		len = _len;
-		if(numblocks > 0) {
-			std::copy(std::begin(bd->blocks),
-					  std::begin(bd->blocks) + (numblocks * 4),
-					  blocks.begin());
-		}
+		blocks.assign(bd->blocks, bd->blocks + numblocks);
 
 		write_new_version();
 	}
-- 
2.43.0


From a91cc16ee6809663b91381a3d5c6efcd0065af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 27/64] fix: an internal file is read and written within its
 bounds, damaged headers and blob chains are refused

---
 src/tool1cd/V8Object.cpp | 328 ++++++++++++++++-----------------------
 src/tool1cd/V8Object.h   |   1 +
 2 files changed, 139 insertions(+), 190 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 2ba17f6..3505979 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -18,7 +18,9 @@
     You should have received a copy of the GNU Lesser General Public License
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
+#include <memory>
 #include <stdexcept>
+#include <vector>
 #include "V8Object.h"
 #include "Common.h"
 #include "Constants.h"
@@ -76,14 +78,8 @@ void V8Object::init()
 //---------------------------------------------------------------------------
 void V8Object::init(T_1CD* _base, int32_t blockNum)
 {
+	init();
 	base = _base;
-	lockinmemory = false;
-
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
 
 	if(blockNum == 1)
 	{
@@ -96,15 +92,16 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		else type = v8objtype::data838;
 	}
 
+	std::vector<char> header(base->get_pagesize());
+	base->get_block(header.data(), blockNum);
+
 	if(type == v8objtype::data80 || type == v8objtype::free80)
 	{
+		const uint32_t max_numblocks = sizeof(v8ob::blocks) / sizeof(uint32_t);
 		fatlevel = 1;
-		v8ob* t = new v8ob;
-		base->get_block(t, blockNum);
+		v8ob* t = (v8ob*)header.data();
 		if(memcmp(&(t->sig), SIG_OBJ, 8) != 0)
 		{
-			delete t;
-			init();
 			throw DetailedException("Ошибка получения объекта из блока. Блок не является объектом.")
 				.add_detail("Блок", to_hex_string(blockNum));
 		}
@@ -128,7 +125,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 			// numblocks - кол-во блоков с реальными данными
 			// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-			while(t->blocks[real_numblocks]) real_numblocks++;
+			while(real_numblocks < max_numblocks && t->blocks[real_numblocks]) real_numblocks++;
+			if(numblocks > real_numblocks)
+			{
+				throw DetailedException("Ошибка получения файла свободных страниц. Длина файла больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum))
+					.add_detail("Свободных страниц", len);
+			}
 			if(real_numblocks > 0)
 			{
 				blocks.clear();
@@ -147,6 +150,14 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				numblocks = 0;
 			}
 
+			if(numblocks > max_numblocks)
+			{
+				throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum))
+					.add_detail("Длина", len);
+			}
+			check_file_contains(blockNum);
+
 			if(numblocks > 0) {
 				blocks.clear();
 				blocks.resize(numblocks);
@@ -157,29 +168,22 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				blocks.clear();
 			}
 		}
-
-		delete t;
 	}
 	else if(type == v8objtype::data838)
 	{
-		char* b = new char[base->get_pagesize()];
-		v838ob_data* t = (v838ob_data*)b;
-		base->get_block(t, blockNum);
+		const uint32_t max_numblocks = base->get_pagesize() / 4 - 6;
+		v838ob_data* t = (v838ob_data*)header.data();
 
 		if(t->sig[0] != 0x1c || t->sig[1] != 0xfd)
 		{
-			delete[] b;
-			init();
 			throw DetailedException("Ошибка получения файла из страницы. Страница не является заголовочной страницей файла данных.")
 				.add_detail("Блок", to_hex_string(blockNum));
 		}
 
 		len = t->len;
 		fatlevel = t->fatlevel;
-		if(fatlevel == 0 && len > ((base->get_pagesize() / 4 - 6) * base->get_pagesize()))
+		if(fatlevel == 0 && len > static_cast<uint64_t>(max_numblocks) * base->get_pagesize())
 		{
-			delete[] b;
-			init();
 			throw DetailedException("Ошибка получения файла из страницы. Длина файла больше допустимой при одноуровневой таблице размещения.")
 				.add_detail("Блок", to_hex_string(blockNum))
 				.add_detail("Длина файла", len);
@@ -199,35 +203,33 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				numblocks = (len - 1) / base->get_pagesize() + 1;
 			}
 			else {
-				numblocks = (len - 1) / (base->get_pagesize() / 4 * base->get_pagesize()) + 1;
+				numblocks = (len - 1) / (static_cast<uint64_t>(base->get_pagesize() / 4) * base->get_pagesize()) + 1;
 			}
 		}
 		else {
 			numblocks = 0;
 		}
 
+		if(numblocks > max_numblocks)
+		{
+			throw DetailedException("Ошибка получения файла из страницы. Длина файла больше допустимой.")
+				.add_detail("Блок", to_hex_string(blockNum))
+				.add_detail("Длина файла", len);
+		}
+		check_file_contains(blockNum);
+
 		if(numblocks > 0) {
-			blocks.clear();
-			blocks.resize(numblocks);
-			std::copy(std::begin(t->blocks),
-					  std::begin(t->blocks) + numblocks,
-					  blocks.begin());
+			blocks.assign(t->blocks, t->blocks + numblocks);
 		} else {
 			blocks.clear();
 		}
-
-		delete[] b;
 	}
 	else
 	{
-		char* b = new char[base->get_pagesize()];
-		v838ob_free* t = (v838ob_free*)b;
-		base->get_block(t, blockNum);
+		v838ob_free* t = (v838ob_free*)header.data();
 
 		if(t->sig[0] != 0x1c || t->sig[1] != 0xff)
 		{
-			delete[] b;
-			init();
 			throw DetailedException("Ошибка получения файла из страницы. Страница не является заголовочной страницей файла свободных блоков.")
 				.add_detail("Блок", to_hex_string(blockNum));
 		}
@@ -242,26 +244,15 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		real_numblocks = 0;
 		data = nullptr;
 
-		if(len) numblocks = (len - 1) / 0x400 + 1;
-		else numblocks = 0;
-
-		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
-		// numblocks - кол-во блоков с реальными данными
-		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-		while(t->blocks[real_numblocks]) real_numblocks++;
-		if(real_numblocks > 0) {
-			blocks.clear();
-			blocks.resize(real_numblocks);
-			std::copy(std::begin(t->blocks),
-					  std::begin(t->blocks) + real_numblocks,
-					  blocks.begin());
-		} else {
-			blocks.clear();
-		}
-
-		delete[] b;
+		numblocks = 0;
+		blocks.clear();
 	}
 
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
 
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
@@ -270,6 +261,18 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 
 }
 
+//---------------------------------------------------------------------------
+// данные объекта не могут занимать больше страниц, чем есть в файле базы
+void V8Object::check_file_contains(int32_t blockNum) const
+{
+	if(len && (len - 1) / base->get_pagesize() >= base->getMemBlockManager().get_numblocks())
+	{
+		throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше длины файла базы.")
+			.add_detail("Блок", to_hex_string(blockNum))
+			.add_detail("Длина", len);
+	}
+}
+
 //---------------------------------------------------------------------------
 V8Object::V8Object(T_1CD* _base, int32_t blockNum)
 {
@@ -308,90 +311,13 @@ V8Object::~V8Object()
 //---------------------------------------------------------------------------
 char* V8Object::get_data()
 {
-	char* tt;
-	objtab* b;
-	objtab838* bb;
-	uint32_t i, l;
-	int32_t j, pagesize, blocksperpage;
-	uint64_t ll;
-	uint32_t curlen = 0;
-
 	lastdataget = GetTickCount();
 	if(!len) return nullptr;
 	if(data) return data;
 
-	if(type == v8objtype::free80)
-	{
-		l = len * 4;
-		data = new char[l];
-		tt = data;
-		i = 0;
-		while(l > DEFAULT_PAGE_SIZE)
-		{
-			base->get_block(tt, blocks[i++]);
-			tt += DEFAULT_PAGE_SIZE;
-			l -= DEFAULT_PAGE_SIZE;
-		}
-		base->get_block(tt, blocks[i], l);
-	}
-	else if(type == v8objtype::data80)
-	{
-		l = len;
-		data = new char[l];
-		tt = data;
-		for(i = 0; i < numblocks; i++)
-		{
-			b = (objtab*)base->get_block(blocks[i]);
-			for(j = 0; j < b->numblocks; j++)
-			{
-				curlen = std::min(DEFAULT_PAGE_SIZE, l);
-				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
-				l -= curlen;
-				tt += DEFAULT_PAGE_SIZE;
-			}
-			if(l <= curlen) break;
-		}
-	}
-	else if(type == v8objtype::data838)
-	{
-		pagesize = base->get_pagesize();
-		blocksperpage = pagesize / 4;
-		ll = len;
-		data = new char[ll];
-		tt = data;
-		if(fatlevel)
-		{
-			for(i = 0; i < numblocks; i++)
-			{
-				bb = (objtab838*)base->get_block(blocks[i]);
-				for(j = 0; j < blocksperpage; j++)
-				{
-					curlen = ll > pagesize ? pagesize : ll;
-					base->get_block(tt, bb->blocks[j], curlen);
-					if(ll <= curlen) break;
-					ll -= curlen;
-					tt += pagesize;
-				}
-				if(ll <= curlen) break;
-			}
-		}
-		else
-		{
-			for(i = 0; i < numblocks; i++)
-			{
-				curlen = ll > pagesize ? pagesize : ll;
-				base->get_block(tt, blocks[i], curlen);
-				if(ll <= curlen) break;
-				ll -= curlen;
-				tt += pagesize;
-			}
-		}
-	}
-	else if(type == v8objtype::free838)
-	{
-		// TODO: реализовать V8Object::getdata() для файла свободных страниц формата 8.3.8
-	}
+	std::unique_ptr<char[]> whole(new char[get_len()]);
+	get_data(whole.get(), 0, get_len());
+	data = whole.release();
 	return data;
 }
 
@@ -412,20 +338,21 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
+	if(_start > get_len() || _length > get_len() - _start)
+	{
+		throw DetailedException("Попытка чтения данных за пределами объекта")
+			.add_detail("Номер блока объекта", to_hex_string(block))
+			.add_detail("Длина объекта", get_len())
+			.add_detail("Начало читаемых данных", _start)
+			.add_detail("Длина читаемых данных", _length);
+	}
+	if(!_length) return (char*)buf;
+
 	if(data) memcpy(buf, data + _start, _length);
 	else
 	{
 		if(type == v8objtype::free80)
 		{
-			if(_start + _length > len * 4)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len * 4)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start >> 12;
 			_buf = (char*)buf;
 			curoffblock = _start - (curblock << 12);
@@ -447,15 +374,6 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 		}
 		else if(type == v8objtype::data80)
 		{
-			if(_start + _length > len)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start >> 12;
 			_buf = (char*)buf;
 			curoffblock = _start - (curblock << 12);
@@ -490,15 +408,6 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 		}
 		else if(type == v8objtype::data838)
 		{
-			if(_start + _length > len)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start / base->get_pagesize();
 			_buf = (char*)buf;
 			offsperpage = base->get_pagesize() / 4;
@@ -570,23 +479,22 @@ void V8Object::savetofile(const boost::filesystem::path &path)
 {
 	uint64_t pagesize = base->get_pagesize();
 	TFileStream fs(path, fmCreate);
-	char *buf = new char[pagesize];
+	std::vector<char> buf(pagesize);
 	uint64_t total_size = get_len();
 	uint64_t remain_size = total_size;
 	for (uint64_t offset = 0; offset < total_size; offset += pagesize)
 	{
 		unsigned size_of_block = std::min(remain_size, pagesize);
-		get_data(buf, offset, size_of_block);
-		fs.Write(buf, size_of_block);
-		remain_size -= pagesize;
+		get_data(buf.data(), offset, size_of_block);
+		fs.Write(buf.data(), size_of_block);
+		remain_size -= size_of_block;
 	}
-	delete[] buf;
 }
 
 //---------------------------------------------------------------------------
 uint64_t V8Object::get_fileoffset(uint64_t offset)
 {
-	uint32_t _start = offset;
+	uint64_t _start = offset;
 	objtab* b;
 	objtab838* bb;
 	uint32_t curblock;
@@ -669,9 +577,15 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 
 	delete[] data;
 	data = nullptr;
+	if(_length > UINT64_MAX - _start)
+	{
+		throw DetailedException("Попытка записи данных за пределами объекта")
+			.add_detail("Номер страницы файла", to_hex_string(block));
+	}
 	if(_start + _length > len) {
 		set_len(_start + _length);
 	}
+	if(!_length) return true;
 
 	if(type == v8objtype::data80)
 	{
@@ -777,6 +691,7 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 	delete[] data;
 	data = nullptr;
 	set_len(_length);
+	if(!_length) return true;
 
 	buf = (char*)_buf;
 
@@ -849,6 +764,16 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 	return false;
 }
 
+//---------------------------------------------------------------------------
+static void read_exactly(TStream* stream, void* buf, uint32_t length)
+{
+	if(stream->ReadBuffer(buf, length) != length)
+	{
+		throw DetailedException("Ошибка чтения записываемых данных. Данных меньше, чем ожидалось")
+			.add_detail("Ожидалось", length);
+	}
+}
+
 //---------------------------------------------------------------------------
 bool V8Object::set_data(TStream* stream)
 {
@@ -875,6 +800,7 @@ bool V8Object::set_data(TStream* stream)
 	data = nullptr;
 	_length = stream->GetSize();
 	set_len(_length);
+	if(!_length) return true;
 
 	stream->Seek(0, soFromBeginning);
 
@@ -887,7 +813,7 @@ bool V8Object::set_data(TStream* stream)
 			{
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
-				stream->ReadBuffer(tt, curlen);
+				read_exactly(stream, tt, curlen);
 				if(_length <= curlen) {
 					break;
 				}
@@ -915,7 +841,7 @@ bool V8Object::set_data(TStream* stream)
 			objtab838 *bb = (objtab838*) base->get_block(blocks[curobjblock++]);
 			while(_length)
 			{
-				stream->ReadBuffer(base->get_block_for_write(bb->blocks[curoffobjblock++], false), curlen);
+				read_exactly(stream, base->get_block_for_write(bb->blocks[curoffobjblock++], false), curlen);
 				_length -= curlen;
 				curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
 				if(_length > 0) {
@@ -931,7 +857,7 @@ bool V8Object::set_data(TStream* stream)
 		{
 			while(_length)
 			{
-				stream->ReadBuffer(base->get_block_for_write(blocks[curblock++], false), curlen);
+				read_exactly(stream, base->get_block_for_write(blocks[curblock++], false), curlen);
 				_length -= curlen;
 				curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
 			}
@@ -972,7 +898,13 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 
 	delete[] data;
 	data = nullptr;
+	if(_length > UINT64_MAX - _start)
+	{
+		throw DetailedException("Попытка записи данных за пределами объекта")
+			.add_detail("Номер страницы файла", to_hex_string(block));
+	}
 	if(_start + _length > len) set_len(_start + _length);
+	if(!_length) return true;
 
 	if(type == v8objtype::data80)
 	{
@@ -986,7 +918,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 		objtab *b = (objtab*) base->get_block(blocks[curobjblock++]);
 		while(_length)
 		{
-			stream->ReadBuffer((char*)(base->get_block_for_write(b->blocks[curoffobjblock++], curlen != DEFAULT_PAGE_SIZE)) + curoffblock, curlen);
+			read_exactly(stream, (char*)(base->get_block_for_write(b->blocks[curoffobjblock++], curlen != DEFAULT_PAGE_SIZE)) + curoffblock, curlen);
 			_length -= curlen;
 			curoffblock = 0;
 			curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE), _length);
@@ -1017,7 +949,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 			objtab838 *bb = (objtab838*) base->get_block(blocks[curobjblock++]);
 			while(_length)
 			{
-				stream->ReadBuffer((char*)(base->get_block_for_write(bb->blocks[curoffobjblock++], curlen != base->get_pagesize())) + curoffblock, curlen);
+				read_exactly(stream, (char*)(base->get_block_for_write(bb->blocks[curoffobjblock++], curlen != base->get_pagesize())) + curoffblock, curlen);
 				_length -= curlen;
 				curoffblock = 0;
 				curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
@@ -1034,7 +966,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 		{
 			while(_length)
 			{
-				stream->ReadBuffer((char*)(base->get_block_for_write(blocks[curblock++], curlen != base->get_pagesize())) + curoffblock, curlen);
+				read_exactly(stream, (char*)(base->get_block_for_write(blocks[curblock++], curlen != base->get_pagesize())) + curoffblock, curlen);
 				_length -= curlen;
 				curoffblock = 0;
 				curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
@@ -1267,6 +1199,15 @@ void V8Object::set_block_as_free(uint32_t block_number)
 			.add_detail("Блок объекта", block);
 	}
 
+	if(type == v8objtype::free838)
+	{
+		// TODO: структура файла свободных страниц формата 8.3.8 не поддерживается, страница остается потерянной
+		return;
+	}
+
+	delete[] data;
+	data = nullptr;
+
 	uint32_t j = len >> 10; // length / 1024
 	int32_t i = len & 0x3ff; // length % 1024
 
@@ -1274,21 +1215,22 @@ void V8Object::set_block_as_free(uint32_t block_number)
 
 	if(real_numblocks > j)
 	{
+		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
 		len++;
 		ob->len = len;
-		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
 		b[i] = block_number;
 		if(numblocks <= j) numblocks = j + 1;
 	}
 	else
 	{
+		if(real_numblocks >= sizeof(v8ob::blocks) / sizeof(uint32_t))
+		{
+			throw DetailedException("Таблица свободных блоков заполнена")
+				.add_detail("Свободных страниц", len);
+		}
+		blocks.push_back(block_number);
 		ob->blocks[real_numblocks] = block_number;
-		blocks.clear();
 		real_numblocks++;
-		blocks.resize(real_numblocks);
-		std::copy(std::begin(ob->blocks),
-				  std::begin(ob->blocks) + (real_numblocks * 4),
-				  blocks.begin());
 	}
 
 }
@@ -1305,13 +1247,20 @@ uint32_t V8Object::get_free_block()
 
 	if(len)
 	{
-		len--;
-		unsigned j = len >> 10; // length / 1024
-		unsigned i = len & 0x3ff; // length % 1024
+		unsigned j = (len - 1) >> 10; // length / 1024
+		unsigned i = (len - 1) & 0x3ff; // length % 1024
 		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
 		unsigned k = b[i];
-		b[i] = 0;
+		if(k <= 2 || k >= base->getMemBlockManager().get_numblocks())
+		{
+			throw DetailedException("В таблице свободных блоков указана недопустимая страница")
+				.add_detail("Страница", to_hex_string(k));
+		}
 		v8ob *ob = (v8ob*)base->get_block_for_write(block, true);
+		delete[] data;
+		data = nullptr;
+		b[i] = 0;
+		len--;
 		ob->len = len;
 		return k;
 	}
@@ -1348,7 +1297,7 @@ uint32_t V8Object::get_numblocks() const
 
 uint32_t V8Object::get_block_by_index(const uint32_t index) const
 {
-	if(index > numblocks) {
+	if(index >= blocks.size()) {
 		throw std::out_of_range("Индекс за границами массива блоков!");
 	}
 
@@ -1416,25 +1365,26 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 	}
 
 	_numblock = len >> 8;
-	if(_numblock << 8 != len)
+	if(static_cast<uint64_t>(_numblock) << 8 != len)
 	{
 		throw DetailedException("Длина файла Blob не кратна 0x100")
 			.add_detail("Номер страницы файла", to_hex_string(block))
 			.add_detail("Длина файла", to_hex_string(len));
 	}
 
-	_curb = new char[0x100];
+	std::vector<char> blob_record(0x100);
+	_curb = blob_record.data();
 	_curblock = _startblock;
-	while(_curblock)
+	for(uint32_t count = 0; _curblock; count++)
 	{
-		if(_curblock >= _numblock)
+		if(_curblock >= _numblock || count >= _numblock)
 		{
 			throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
 				.add_detail("Номер страницы файла", to_hex_string(block))
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, static_cast<uint64_t>(_curblock) << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
@@ -1448,8 +1398,6 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 
 		if(_str->GetSize() - startlen > _length) break; // аварийный выход из возможного ошибочного зацикливания
 	}
-	delete[] _curb;
-
 	if(_length != UINT_MAX) if(_str->GetSize() - startlen != _length)
 	{
 		throw DetailedException("Несовпадение длины Blob-поля, указанного в записи, с длиной практически прочитанных данных")
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index f733bb7..9fb49f5 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -157,6 +157,7 @@ private:
 
 	void init();
 	void init(T_1CD* _base, int32_t blockNum);
+	void check_file_contains(int32_t blockNum) const;
 };
 
 #endif
-- 
2.43.0


From 5f5ed9ebafd6a2679a2fd8421cbb383826816a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 28/64] fix: reading a record or a blob value stays within the
 buffer, with offsets above 4 GB, and ends on cyclic chains

---
 src/tool1cd/Table.cpp | 47 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ca543b1..42a41e7 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -641,7 +641,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, static_cast<uint64_t>(phys_numrecord) * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -650,12 +650,12 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	#ifndef getcfname
 	tr_syn->BeginWrite();
 	#endif
-	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	std::unique_ptr<char[]> buf(new char[recordlen]);
+	file_data->get_data(buf.get(), static_cast<uint64_t>(phys_numrecord) * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
-	return new TableRecord(this, b, recordlen);
+	return new TableRecord(this, buf.release(), recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -734,7 +734,8 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen;
+	uint32_t _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -750,23 +751,24 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	{
 		_filelen = file_blob->get_len();
 		_numblock = _filelen >> 8;
-		if(_numblock << 8 != _filelen)
+		if(static_cast<uint64_t>(_numblock) << 8 != _filelen)
 			throw DetailedException("Длина файла Blob не кратна 0x100")
 				.add_detail("Таблица", name)
 				.add_detail("Длина файла", to_hex_string(_filelen));
 
-		_curb = new char[0x100];
+		std::vector<char> blob_record(BLOB_RECORD_LEN);
+		_curb = blob_record.data();
 		_curblock = _startblock;
-		while(_curblock)
+		for(uint32_t count = 0; _curblock; count++)
 		{
-			if(_curblock >= _numblock)
+			if(_curblock >= _numblock || count >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
 					.add_detail("Таблица", name)
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -780,7 +782,6 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 
 			if(_str->GetSize() - startlen > _length) break; // аварийный выход из возможного ошибочного зацикливания
 		}
-		delete[] _curb;
 
 		if(_str->GetSize() - startlen != _length)
 		{
@@ -807,7 +808,8 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen;
+	uint32_t _numblock;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -822,24 +824,25 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	{
 		_filelen = file_blob->get_len();
 		_numblock = _filelen >> 8;
-		if(_numblock << 8 != _filelen) {
+		if(static_cast<uint64_t>(_numblock) << 8 != _filelen) {
 			throw DetailedException("Длина файла Blob не кратна 0x100")
 					.add_detail("Таблица", name)
 					.add_detail("Длина файла", to_hex_string(_filelen));
 		}
 
-		_curb = new char[0x100];
+		std::vector<char> blob_record(BLOB_RECORD_LEN);
+		_curb = blob_record.data();
 		_curblock = _startblock;
-		while(_curblock)
+		for(uint32_t count = 0; _curblock; count++)
 		{
-			if(_curblock >= _numblock)
+			if(_curblock >= _numblock || count >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
 					.add_detail("Таблица", name)
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -849,13 +852,13 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
-			memcpy(_buf, _curb + 6, _curlen);
-			_buf += _curlen;
-			readed += _curlen;
+			uint32_t tocopy = std::min<uint32_t>(_curlen, _length - readed); // в буфере место только для _length байт
+			memcpy(_buf, _curb + 6, tocopy);
+			_buf += tocopy;
+			readed += tocopy;
 
-			if(readed > _length) break; // аварийный выход из возможного ошибочного зацикливания
+			if(tocopy < _curlen) break; // аварийный выход из возможного ошибочного зацикливания
 		}
-		delete[] _curb;
 
 		if(readed != _length)
 		{
-- 
2.43.0


From 6f66cd876ce44cc60802dd618b0e4b216a3da7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 29/64] fix: a page that cannot be read completely is an error,
 and page ageing survives the tick counter's wrap

---
 src/tool1cd/MemBlock.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/MemBlock.cpp b/src/tool1cd/MemBlock.cpp
index 5c37e22..17732b5 100644
--- a/src/tool1cd/MemBlock.cpp
+++ b/src/tool1cd/MemBlock.cpp
@@ -21,12 +21,15 @@
 
 #include "MemBlock.h"
 #include "Constants.h"
+#include "DetailedException.h"
 #include "SystemClasses/GetTickCount.hpp"
 
 std::shared_ptr<MemBlock> MemBlock::create(std::shared_ptr<TFileStream> &fs, uint32_t page_size, uint32_t block_num,
 bool for_write, bool read)
 {
-	auto buf = new char[page_size];
+	std::vector<char> page(page_size);
+	auto buf = page.data();
+	bool complete = true;
 	if(for_write)
 	{
 		uint32_t fnumblocks = fs->GetSize() / page_size;
@@ -43,7 +46,7 @@ bool for_write, bool read)
 			if(read)
 			{
 				fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-				fs->ReadBuffer(buf, page_size);
+				complete = fs->ReadBuffer(buf, page_size) == page_size;
 			}
 			else memset(buf, 0, page_size);
 		}
@@ -51,7 +54,13 @@ bool for_write, bool read)
 	else
 	{
 		fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-		fs->ReadBuffer(buf, page_size);
+		complete = fs->ReadBuffer(buf, page_size) == page_size;
+	}
+
+	if(!complete)
+	{
+		throw DetailedException("Ошибка чтения страницы файла базы. Страница прочитана не полностью")
+			.add_detail("Страница", to_hex_string(block_num));
 	}
 
 	std::shared_ptr<MemBlock> block(new MemBlock(page_size, block_num));
@@ -80,8 +89,9 @@ void MemBlockManager::garbage(bool aggressive)
 			continue;
 		}
 
-		auto when_to_kill = block->get_last_data_get() + LIVE_CASH * 60 * 1000;
-		if (aggressive || curt >= when_to_kill) {
+		// разность не зависит от переполнения счетчика
+		uint32_t unused_time = curt - block->get_last_data_get();
+		if (aggressive || unused_time >= LIVE_CASH * 60 * 1000) {
 			block.reset();
 		}
 	}
@@ -119,7 +129,6 @@ void MemBlockManager::create_memblocks(uint64_t _numblocks)
 {
 	memblocks.clear();
 	memblocks.resize(_numblocks);
-	memset(memblocks.data(), 0, memblocks.size() * sizeof(MemBlock *));
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 03d791744c11e24de958ca79e348a3fca31c2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 30/64] fix: a failed import leaves the database unchanged, a
 finished one refreshes what is known of the table and keeps the versions in
 their place

---
 src/ctool1cd/App.cpp      |   8 +-
 src/tool1cd/Class_1CD.cpp |  35 ++++
 src/tool1cd/Class_1CD.h   |   6 +
 src/tool1cd/Index.cpp     |   8 +
 src/tool1cd/Index.h       |   1 +
 src/tool1cd/MemBlock.cpp  |  11 ++
 src/tool1cd/MemBlock.h    |   1 +
 src/tool1cd/Table.cpp     | 402 +++++++++++++++++++-------------------
 src/tool1cd/Table.h       |   8 +-
 src/tool1cd/V8Object.cpp  |  47 +++++
 src/tool1cd/V8Object.h    |  17 ++
 11 files changed, 339 insertions(+), 205 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index f2c5a14..1105e06 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -214,7 +214,9 @@ void App::export_to_binary(const ParsedCommand &pc)
 			if (!tbl->get_num_indexes()) {
 				tbl->fill_records_index();
 			}
-			tbl->export_table(root_path.string());
+			if (!tbl->export_table(root_path.string())) {
+				continue;
+			}
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 					.with("Таблица", tbl->get_name())
 					.with("Каталог", root_path.string());
@@ -277,7 +279,9 @@ void App::import_from_binary(const ParsedCommand &pc)
 			if (!tbl->get_num_indexes()) {
 				tbl->fill_records_index();
 			}
-			tbl->import_table(root_path.string());
+			if (!tbl->import_table(root_path.string())) {
+				continue;
+			}
 			msreg_g.AddMessage("Выполнен импорт таблицы из файла.", MessageState::Succesfull)
 					.with("Таблица", tbl->get_name())
 					.with("Каталог", root_path.string());
diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..79c0d7d 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <map>
 #include <vector>
 #include "SystemClasses/System.IOUtils.hpp"
 #include <boost/filesystem.hpp>
@@ -567,6 +568,40 @@ const MemBlockManager & T_1CD::getMemBlockManager() const
 	return memBlockManager;
 }
 
+//---------------------------------------------------------------------------
+struct T_1CD::Snapshot
+{
+	uint32_t length;
+	std::map<V8Object*, V8Object::State> objects;
+};
+
+//---------------------------------------------------------------------------
+std::shared_ptr<T_1CD::Snapshot> T_1CD::get_snapshot() const
+{
+	auto snapshot = std::make_shared<Snapshot>();
+	snapshot->length = length;
+	for(V8Object* ob = V8Object::get_first(); ob; ob = ob->get_next())
+	{
+		if(ob->get_base() == this)
+		{
+			snapshot->objects[ob] = ob->get_state();
+		}
+	}
+	return snapshot;
+}
+
+//---------------------------------------------------------------------------
+void T_1CD::rollback(const Snapshot &snapshot)
+{
+	memBlockManager.discard_changes(snapshot.length);
+	length = snapshot.length;
+	fs->SetSize(static_cast<int64_t>(length) * pagesize);
+	for(auto &object : snapshot.objects)
+	{
+		object.first->set_state(object.second);
+	}
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::flush()
 {
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 534e81a..828b7ab 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -23,6 +23,7 @@
 #define Class_1CDH
 
 #include <boost/filesystem.hpp>
+#include <memory>
 #include <vector>
 
 #include "MessageRegistration.h"
@@ -250,6 +251,11 @@ public:
 	char* get_block(uint32_t block_number) const; // буфер не принадлежит вызывающей стороне (принадлежит memblock)
 	char* get_block_for_write(uint32_t block_number, bool read); // буфер не принадлежит вызывающей стороне (принадлежит memblock)
 	void set_block_as_free(uint32_t block_number); // пометить блок как свободный
+
+	// Состояние базы для отмены изменений, не записанных в файл
+	struct Snapshot;
+	std::shared_ptr<Snapshot> get_snapshot() const;
+	void rollback(const Snapshot &snapshot); // отменить все изменения, не записанные в файл
 	uint32_t get_free_block(); // получить номер свободного блока (и пометить как занятый)
 
 	const MemBlockManager &getMemBlockManager() const;
diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b29d0a0..84a630f 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -348,6 +348,14 @@ void Index::set_start_offset(const uint64_t value)
 	start = value;
 }
 
+void Index::reset()
+{
+	rootblock = 0;
+	length = 0;
+	recordsindex.clear();
+	recordsindex_complete = false;
+}
+
 //---------------------------------------------------------------------------
 void Index::dump(const string &_filename)
 {
diff --git a/src/tool1cd/Index.h b/src/tool1cd/Index.h
index 87f244e..b1b487f 100644
--- a/src/tool1cd/Index.h
+++ b/src/tool1cd/Index.h
@@ -113,6 +113,7 @@ public:
 
 	uint64_t get_start_offset() const;
 	void set_start_offset(const uint64_t value);
+	void reset(); // забыть все прочитанное из файла индексов
 
 	// распаковывает одну страницу-лист индексов
 	// возвращает массив структур unpack_index_record. Количество элементов массива возвращается в number_indexes
diff --git a/src/tool1cd/MemBlock.cpp b/src/tool1cd/MemBlock.cpp
index 17732b5..f4f8174 100644
--- a/src/tool1cd/MemBlock.cpp
+++ b/src/tool1cd/MemBlock.cpp
@@ -159,6 +159,17 @@ void MemBlockManager::flush()
 	}
 }
 
+//---------------------------------------------------------------------------
+void MemBlockManager::discard_changes(uint64_t _numblocks)
+{
+	memblocks.resize(_numblocks);
+	for (auto &block : memblocks) {
+		if (block && block->is_changed()) {
+			block.reset();
+		}
+	}
+}
+
 //---------------------------------------------------------------------------
 void MemBlock::write(std::shared_ptr<TFileStream> &fs)
 {
diff --git a/src/tool1cd/MemBlock.h b/src/tool1cd/MemBlock.h
index 9b5858c..406eee4 100644
--- a/src/tool1cd/MemBlock.h
+++ b/src/tool1cd/MemBlock.h
@@ -80,6 +80,7 @@ public:
 	void delete_memblocks();
 	uint64_t get_numblocks() const;
 	void flush();
+	void discard_changes(uint64_t _numblocks); // забыть незаписанные изменения и страницы, начиная с указанной
 
 	uint32_t get_page_size() const;
 	void set_page_size(const uint32_t value);
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 42a41e7..74acc93 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <memory>
 #include <string>
 #include <set>
 #include <cstring>
@@ -145,10 +146,7 @@ void Table::init(int32_t block_descr)
 	Tree* f;
 	Tree* rt;
 	int32_t j;
-	uint32_t m;
-	uint64_t s;
 	int32_t blockfile[3];
-	uint32_t* buf;
 
 	init();
 
@@ -351,72 +349,7 @@ void Table::init(int32_t block_descr)
 			.add_detail("Таблица", name)
 			.add_detail("Блок индексов", to_hex_string(blockfile[2]));
 	}
-	if(file_index)
-	{
-		m = file_index->get_len() / base->get_pagesize();
-		if(file_index->get_len() != m * base->get_pagesize())
-		{
-			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
-				.add_detail("Таблица", name)
-				.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()));
-		}
-		{
-			int32_t buflen = num_indexes * 4 + 4;
-			buf = new uint32_t[num_indexes + 1];
-			file_index->get_data(buf, 0, buflen);
-
-			if(buf[0] * base->get_pagesize() >= file_index->get_len())
-			{
-				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
-					.add_detail("Таблица", name)
-					.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
-					.add_detail("Индекс свободной страницы", to_hex_string(buf[0]));
-			}
-			{
-				for(int32_t i = 1; i <= num_indexes; i++)
-				{
-					if(base->get_version() < db_ver::ver8_3_8_0)
-					{
-						if(buf[i] >= file_index->get_len())
-						{
-							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
-								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
-								.add_detail("Номер индекса", i)
-								.add_detail("Смещение индекса", to_hex_string(buf[i]));
-						}
-						if(buf[i] & 0xfff)
-						{
-							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса не кратно 4 Кб")
-								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
-								.add_detail("Номер индекса", i)
-								.add_detail("Смещение индекса", to_hex_string(buf[i]));
-						}
-						indexes[i - 1]->set_start_offset(buf[i]);
-					}
-					else
-					{
-						s = buf[i];
-						s *= base->get_pagesize();
-						if(s >= file_index->get_len())
-						{
-							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
-								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", file_index->get_len())
-								.add_detail("Номер индекса", i)
-								.add_detail("Смещение индекса", s);
-						}
-						indexes[i - 1]->set_start_offset(s);
-					}
-				}
-			}
-
-			delete[] buf;
-
-		}
-
-	}
+	init_index_offsets();
 
 	// вычисляем длину записи таблицы как сумму длинн полей и проставим смещения полей в записи
 	recordlen = 1; // первый байт записи - признак удаленности
@@ -440,32 +373,116 @@ void Table::init(int32_t block_descr)
 	}
 	if(recordlen < 5) recordlen = 5; // Длина одной записи не может быть меньше 5 байт (1 байт признак, что запись свободна, 4 байт - индекс следующей следующей свободной записи)
 
-	if(!recordlen || !file_data) phys_numrecords = 0;
-	else phys_numrecords = file_data->get_len() / recordlen;;
+	init_numrecords();
 
-	if(file_data)
+	// Инициализация данных индекса
+	for(int32_t i = 0; i < num_indexes; i++) indexes[i]->get_length();
+
+	bad = false;
+
+}
+
+//---------------------------------------------------------------------------
+// читает смещения индексов из заголовка файла индексов
+void Table::init_index_offsets()
+{
+	if(file_index)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		uint64_t m = file_index->get_len() / base->get_pagesize();
+		if(file_index->get_len() != m * base->get_pagesize())
 		{
-			throw DetailedException("Длина таблицы не кратна длине записи.")
-				.add_detail("Блок", to_hex_string(block_descr))
+			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
 				.add_detail("Таблица", name)
-				.add_detail("Длина таблицы", file_data->get_len())
-				.add_detail("Длина записи", recordlen);
+				.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()));
+		}
+
+		std::vector<uint32_t> buf(num_indexes + 1);
+		file_index->get_data(buf.data(), 0, buf.size() * sizeof(uint32_t));
+
+		if(static_cast<uint64_t>(buf[0]) * base->get_pagesize() >= file_index->get_len())
+		{
+			throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
+				.add_detail("Таблица", name)
+				.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+				.add_detail("Индекс свободной страницы", to_hex_string(buf[0]));
+		}
+		for(int32_t i = 1; i <= num_indexes; i++)
+		{
+			if(base->get_version() < db_ver::ver8_3_8_0)
+			{
+				if(buf[i] >= file_index->get_len())
+				{
+					throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
+						.add_detail("Таблица", name)
+						.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+						.add_detail("Номер индекса", i)
+						.add_detail("Смещение индекса", to_hex_string(buf[i]));
+				}
+				if(buf[i] & 0xfff)
+				{
+					throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса не кратно 4 Кб")
+						.add_detail("Таблица", name)
+						.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+						.add_detail("Номер индекса", i)
+						.add_detail("Смещение индекса", to_hex_string(buf[i]));
+				}
+				indexes[i - 1]->set_start_offset(buf[i]);
+			}
+			else
+			{
+				uint64_t s = buf[i];
+				s *= base->get_pagesize();
+				if(s >= file_index->get_len())
+				{
+					throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
+						.add_detail("Таблица", name)
+						.add_detail("Длина файла индексов", file_index->get_len())
+						.add_detail("Номер индекса", i)
+						.add_detail("Смещение индекса", s);
+				}
+				indexes[i - 1]->set_start_offset(s);
+			}
 		}
 	}
-	else
+}
+
+//---------------------------------------------------------------------------
+// вычисляет количество записей по длине файла данных
+void Table::init_numrecords()
+{
+	if(!file_data)
 	{
+		phys_numrecords = 0;
 		throw DetailedException("Отсутствует файл данных таблицы.")
-			.add_detail("Блок", to_hex_string(block_descr))
 			.add_detail("Таблица", name);
 	}
 
-	// Инициализация данных индекса
-	for(int32_t i = 0; i < num_indexes; i++) indexes[i]->get_length();
-
-	bad = false;
+	phys_numrecords = file_data->get_len() / recordlen;
+	if(static_cast<uint64_t>(phys_numrecords) * recordlen != file_data->get_len())
+	{
+		throw DetailedException("Длина таблицы не кратна длине записи.")
+			.add_detail("Таблица", name)
+			.add_detail("Длина таблицы", file_data->get_len())
+			.add_detail("Длина записи", recordlen);
+	}
+}
 
+//---------------------------------------------------------------------------
+// все, что вычислено по содержимому файлов таблицы, вычисляется заново
+void Table::reset_contents()
+{
+	recordsindex.clear();
+	recordsindex_complete = false;
+	numrecords_review = 0;
+	numrecords_found = 0;
+	log_numrecords = 0;
+	init_index_offsets();
+	init_numrecords();
+	for(auto index : indexes)
+	{
+		index->reset();
+		index->get_length();
+	}
 }
 
 //---------------------------------------------------------------------------
@@ -1115,14 +1132,14 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 }
 
 //---------------------------------------------------------------------------
-void Table::export_table(const boost::filesystem::path &path) const
+bool Table::export_table(const boost::filesystem::path &path) const
 {
 	boost::filesystem::path dir = path / name;
 	if(!directory_exists(dir, true)) {
-		return;
+		return false;
 	}
 
-	export_import_table_root root;
+	export_import_table_root root = {};
 	if(file_data) {
 		root.has_data = true;
 		auto version = file_data->get_current_version();
@@ -1155,10 +1172,9 @@ void Table::export_table(const boost::filesystem::path &path) const
 	}
 	else root.has_descr = false;
 
-	try {
-		TFileStream f(dir / "root", fmCreate|fmShareDenyNone);
+	{
+		TFileStream f(dir / "root", fmCreate);
 		f.Write(&root, sizeof(export_import_table_root));
-	} catch(...) {
 	}
 
 	if (file_data) {
@@ -1174,145 +1190,99 @@ void Table::export_table(const boost::filesystem::path &path) const
 		descr_table->savetofile((dir / "descr").string());
 	}
 
+	return true;
+}
+
+//---------------------------------------------------------------------------
+static std::unique_ptr<TFileStream> open_import_file(const boost::filesystem::path &dir, const std::string &file_name, const std::string &table_name)
+{
+	try
+	{
+		return std::unique_ptr<TFileStream>(new TFileStream(dir / file_name, fmOpenRead));
+	}
+	catch(...)
+	{
+		throw DetailedException(string("Ошибка открытия файла импорта таблицы ") + file_name)
+			.add_detail("Таблица", table_name)
+			.add_detail("Файл", (dir / file_name).string());
+	}
 }
 
 //---------------------------------------------------------------------------
-void Table::import_table(const boost::filesystem::path &path)
+bool Table::import_table(const boost::filesystem::path &path)
 {
 	boost::filesystem::path dir = path / name;
 
 	if(!directory_exists(dir)) {
-		return;
+		return false;
 	}
 
-	TFileStream* f;
-	bool fopen;
-	v8ob* ob;
-
-	bool descr_changed = false;
-
-	try
+	if(base->get_readonly())
 	{
-		f = new TFileStream(dir / "root", fmOpenRead);
+		throw DetailedException("Попытка импорта таблицы в базу, открытую в режиме \"Только чтение\"")
+			.add_detail("Таблица", name);
 	}
-	catch(...)
+
+	export_import_table_root root;
+	auto root_file = open_import_file(dir, "root", name);
+	if(root_file->Read(&root, sizeof(export_import_table_root)) != sizeof(export_import_table_root))
 	{
-		throw DetailedException("Ошибка открытия файла импорта таблицы root")
+		throw DetailedException("Ошибка чтения файла импорта таблицы root")
 			.add_detail("Таблица", name)
 			.add_detail("Файл", (dir / "root").string());
 	}
-	export_import_table_root root;
-	f->Read(&root, sizeof(export_import_table_root));
-	delete f;
 
-	if(root.has_data) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "data", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы data")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "data").string());
-		}
-		if(fopen)
-		{
-			if(!file_data){
-				file_data = new V8Object(base);
-				descr_changed = true;
-			}
-			file_data->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_data->get_block_number(), true);
-			ob->version.version_1 = root.data_version_1;
-			ob->version.version_2 = root.data_version_2;
-			delete f;
-		}
-	}
+	std::unique_ptr<TFileStream> data_file, blob_file, index_file, descr_file;
+	if(root.has_data) data_file = open_import_file(dir, "data", name);
+	if(root.has_blob) blob_file = open_import_file(dir, "blob", name);
+	if(root.has_index) index_file = open_import_file(dir, "index", name);
 
-	if(root.has_blob) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "blob", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы blob")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "blob").string());
-		}
-		if(fopen)
-		{
-			if(!file_blob){
-				file_blob = new V8Object(base);
-				descr_changed = true;
-			}
-			file_blob->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_blob->get_block_number(), true);
-			ob->version.version_1 = root.blob_version_1;
-			ob->version.version_2 = root.blob_version_2;
-			delete f;
-		}
+	bool descr_changed = (root.has_data && !file_data) || (root.has_blob && !file_blob) || (root.has_index && !file_index);
+	if(descr_changed && !descr_table)
+	{
+		throw DetailedException("Ошибка импорта таблицы. В описании таблицы нет импортируемого файла")
+			.add_detail("Таблица", name);
 	}
+	if(descr_changed && root.has_descr) descr_file = open_import_file(dir, "descr", name);
 
-	if(root.has_index) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "index", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
+	V8Object* old_data = file_data;
+	V8Object* old_blob = file_blob;
+	V8Object* old_index = file_index;
+	base->flush(); // отменить можно только еще не записанное в файл
+	auto snapshot = base->get_snapshot();
+
+	try
+	{
+		if(data_file)
 		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы index")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "index").string());
+			if(!file_data) file_data = new V8Object(base);
+			file_data->set_data(data_file.get());
+			file_data->set_version(root.data_version_1, root.data_version_2);
 		}
-		if(fopen)
+
+		if(blob_file)
 		{
-			if(!file_index){
-				file_index = new V8Object(base);
-				descr_changed = true;
-			}
-			file_index->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_index->get_block_number(), true);
-			ob->version.version_1 = root.index_version_1;
-			ob->version.version_2 = root.index_version_2;
-			delete f;
+			if(!file_blob) file_blob = new V8Object(base);
+			file_blob->set_data(blob_file.get());
+			file_blob->set_version(root.blob_version_1, root.blob_version_2);
 		}
-	}
 
-	if (descr_changed && root.has_descr)
-	{
-		fopen = false;
-		try
+		if(index_file)
 		{
-			f = new TFileStream(dir / "descr", fmOpenRead);
-			fopen = true;
+			if(!file_index) file_index = new V8Object(base);
+			file_index->set_data(index_file.get());
+			file_index->set_version(root.index_version_1, root.index_version_2);
 		}
-		catch(...)
+
+		if(descr_file)
 		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы descr")
-					.add_detail("Таблица", name)
+			std::vector<uint8_t> buf(descr_file->GetSize());
+			if(descr_file->Read(buf.data(), buf.size()) != static_cast<int64_t>(buf.size()))
+			{
+				throw DetailedException("Ошибка чтения файла импорта таблицы descr")
 					.add_detail("Файл", (dir / "descr").string());
-		}
-		if(fopen)
-		{
-			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			ob = (v8ob*)base->get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root.descr_version_1;
-			ob->version.version_2 = root.descr_version_2;
-
-			auto buf_size = f->GetSize();
-			char *buf = new char[buf_size];
-			f->Read(buf, buf_size);
-			string str = TEncoding::Unicode->toUtf8(vector<uint8_t>(buf, buf + buf_size));
-			delete[] buf;
-			delete f;
+			}
+			string str = TEncoding::Unicode->toUtf8(buf);
 
 			auto pos_files = str.find("{\"Files\",");
 			if (pos_files == string::npos) {
@@ -1330,13 +1300,43 @@ void Table::import_table(const boost::filesystem::path &path)
 
 			auto data = TEncoding::Unicode->fromUtf8(str);
 			descr_table->set_data(data.data(), data.size());
-
+			descr_table->set_version(root.descr_version_1, root.descr_version_2);
 		}
 
+		reset_contents();
+	}
+	catch(...)
+	{
+		if(file_data != old_data)
+		{
+			delete file_data;
+			file_data = old_data;
+		}
+		if(file_blob != old_blob)
+		{
+			delete file_blob;
+			file_blob = old_blob;
+		}
+		if(file_index != old_index)
+		{
+			delete file_index;
+			file_index = old_index;
+		}
+		base->rollback(*snapshot);
+		try
+		{
+			reset_contents();
+		}
+		catch(...)
+		{
+			// об ошибке импорта сообщит исходное исключение
+		}
+		throw;
 	}
 
 	base->flush();
 
+	return true;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index 3d96612..a6d2d7d 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -121,6 +121,7 @@ public:
 	~Table();
 	void init();
 	void init(int32_t block_descr);
+	void reset_contents(); // пересчитать все, что вычислено по содержимому файлов таблицы
 
 	std::string get_name() const;
 	std::string get_description() const;
@@ -172,8 +173,8 @@ public:
 	void restore_edit_value(uint32_t phys_numrecord, int32_t numfield);
 	void set_rec_type(uint32_t phys_numrecord, changed_rec_type crt);
 
-	void export_table(const boost::filesystem::path &path) const;
-	void import_table(const boost::filesystem::path &path);
+	bool export_table(const boost::filesystem::path &path) const;
+	bool import_table(const boost::filesystem::path &path);
 
 	void delete_record(uint32_t phys_numrecord); // удаление записи
 	void insert_record(const TableRecord *rec); // добавление записи
@@ -214,6 +215,9 @@ private:
 	bool issystem; // Признак системной таблицы (имя таблицы не начинается с подчеркивания)
 	int32_t lockinmemory; // счетчик блокировок в памяти
 
+	void init_index_offsets(); // читает смещения индексов из заголовка файла индексов
+	void init_numrecords(); // вычисляет количество записей по длине файла данных
+
 	void delete_fields();
 	void delete_indexes();
 
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 3505979..1bdd3ed 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1317,6 +1317,53 @@ void V8Object::write_new_version()
 	new_version_recorded = true;
 }
 
+//---------------------------------------------------------------------------
+void V8Object::set_version(uint32_t version_1, uint32_t version_2)
+{
+	int32_t veroffset = type == v8objtype::data80 || type == v8objtype::free80 ? 12 : 4;
+	uint32_t new_ver[2] = {version_1, version_2};
+
+	memcpy(base->get_block_for_write(block, true) + veroffset, new_ver, sizeof(new_ver));
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+	new_version_recorded = true;
+}
+
+//---------------------------------------------------------------------------
+V8Object::State V8Object::get_state() const
+{
+	State state;
+	state.len = len;
+	state.version = version;
+	state.new_version_recorded = new_version_recorded;
+	state.fatlevel = fatlevel;
+	state.numblocks = numblocks;
+	state.real_numblocks = real_numblocks;
+	state.blocks = blocks;
+	return state;
+}
+
+//---------------------------------------------------------------------------
+void V8Object::set_state(const State &state)
+{
+	delete[] data;
+	data = nullptr;
+	len = state.len;
+	version = state.version;
+	new_version_recorded = state.new_version_recorded;
+	fatlevel = state.fatlevel;
+	numblocks = state.numblocks;
+	real_numblocks = state.real_numblocks;
+	blocks = state.blocks;
+}
+
+//---------------------------------------------------------------------------
+T_1CD* V8Object::get_base() const
+{
+	return base;
+}
+
+//---------------------------------------------------------------------------
 _version V8Object::get_current_version() const
 {
 	return version;
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index 9fb49f5..ff66744 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -133,6 +133,23 @@ public:
 	uint32_t get_block_by_index(const uint32_t index) const;
 	TStream* readBlob(TStream* _str, uint32_t _startblock, uint32_t _length = UINT_MAX, bool rewrite = true);
 
+	void set_version(uint32_t version_1, uint32_t version_2); // записывает указанную версию объекта
+
+	// состояние объекта в памяти, для отмены изменений
+	struct State
+	{
+		uint64_t len;
+		_version version;
+		bool new_version_recorded;
+		int32_t fatlevel;
+		uint64_t numblocks;
+		uint32_t real_numblocks;
+		std::vector<uint32_t> blocks;
+	};
+	State get_state() const;
+	void set_state(const State &state);
+	T_1CD* get_base() const;
+
 private:
 	T_1CD* base;
 
-- 
2.43.0


From fa1a84173cd041dc9e4816553e131b9c84f302a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 31/64] fix: a database opened read-only refuses every change
 of a page, also of a length and of the free list

---
 src/tool1cd/Class_1CD.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 79c0d7d..be5bfbd 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -92,6 +92,11 @@ char*  T_1CD::get_block_for_write(uint32_t block_number, bool read)
 
 
 	if(!fs) return nullptr;
+	if(readonly)
+	{
+		throw DetailedException("Попытка изменения базы, открытой в режиме \"Только чтение\"")
+			.add_detail("Индекс блока", to_hex_string(block_number));
+	}
 	if(block_number > length)
 	{
 		throw DetailedException("Попытка получения блока за пределами файла базы.")
-- 
2.43.0


From 3e6783e7fdc83ff2a8c0ce5b58668a755b11c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 32/64] fix: deleting an internal file frees each of its pages
 exactly once, in every format

---
 src/tool1cd/Class_1CD.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index be5bfbd..6e2e4c3 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1799,8 +1799,6 @@ bool T_1CD::delete_table(Table* tab)
 //---------------------------------------------------------------------------
 bool T_1CD::delete_object(V8Object* ob)
 {
-	objtab* b;
-
 	if(!ob) return true;
 
 	if(ob->get_block_number() == 1) {
@@ -1813,20 +1811,8 @@ bool T_1CD::delete_object(V8Object* ob)
 			.add_detail("Номер блока объекта", ob->get_block_number());
 	}
 
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		b = (objtab*)get_block(ob->get_block_by_index(i));
-		for(uint32_t j = 0; j < b->numblocks; j++) {
-			set_block_as_free(b->blocks[j]);
-		}
-	}
-
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_by_index(i));
-	}
-
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_number());
-	}
+	ob->set_len(0); // освобождает страницы данных и страницы размещения
+	set_block_as_free(ob->get_block_number());
 
 	delete ob;
 
-- 
2.43.0


From b3c08093355e3fbba110037ecbca189f2b1f4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 33/64] fix: the last page of an internal file is written also
 when it is the first of an allocation page

---
 src/tool1cd/V8Object.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 1bdd3ed..cd92e15 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -706,12 +706,12 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
@@ -814,12 +814,12 @@ bool V8Object::set_data(TStream* stream)
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				read_exactly(stream, tt, curlen);
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
-- 
2.43.0


From 502c9716812ce03bd14243c6110fff398be6c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 34/64] fix: a directory, or a file whose size cannot be
 determined, is not read as an empty file

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 5 +++++
 src/tool1cd/SystemClasses/TStream.cpp     | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 407d81a..6082c47 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -68,6 +68,11 @@ void TFileStream::open_stream(std::ios_base::openmode mode)
 	if (!stream->is_open()) {
 		throw Exception(filename + ": " + std::strerror(errno));
 	}
+	// каталог на чтение открывается, но содержимого у него нет
+	boost::system::error_code ec;
+	if (boost::filesystem::is_directory(filename, ec)) {
+		throw Exception(filename + ": " + std::strerror(EISDIR));
+	}
 	_stream = stream;
 	reopen(_stream);
 }
diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 8c69ecb..a25624d 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -188,8 +188,8 @@ void TWrapperStream::init_size()
 	_stream->seekg(0, std::ios_base::end);
 	m_size = _stream->tellg();
 	_stream->seekg(0, std::ios_base::beg);
-	if (m_size < 0) {
-		m_size = 0;
+	if (m_size < 0 || !*_stream) {
+		throw Exception(std::strerror(errno));
 	}
 }
 
-- 
2.43.0


From d28194f8a1ce84da9c19663f333461548782d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 35/64] fix: a failure before the commands start, for instance
 of looking at the database file, ends the program in order

---
 src/ctool1cd/cTool_1CD_Main.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ctool1cd/cTool_1CD_Main.cpp b/src/ctool1cd/cTool_1CD_Main.cpp
index 186b722..b3a829c 100755
--- a/src/ctool1cd/cTool_1CD_Main.cpp
+++ b/src/ctool1cd/cTool_1CD_Main.cpp
@@ -19,6 +19,7 @@
     along with CTool1CD.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <exception>
 #include <iosfwd>
 
 #include "ErrorCode.h"
@@ -37,11 +38,21 @@ int main(int argc, char* argv[])
 
 	msreg_g.AddMessageRegistrator(&mess);
 
-	App app(argv, argc, mess);
+	try {
+		App app(argv, argc, mess);
 
-	int result = app.Run();
-	if (result != 0) {
-		return result;
+		int result = app.Run();
+		if (result != 0) {
+			return result;
+		}
+	}
+	catch (std::exception &ex) {
+		msreg_g.AddError(ex.what());
+		return CTOOL_1CD_ERROR;
+	}
+	catch (...) {
+		msreg_g.AddError("Неизвестная ошибка.");
+		return CTOOL_1CD_ERROR;
 	}
 
 	if(mess.has_error)
-- 
2.43.0


From 1e5717cc8e6ee99e03116244599abb799a43158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 36/64] fix: times of configuration files are converted with
 the right units and zone

---
 src/tool1cd/SystemClasses/System.cpp | 24 ++++++++++++++++++------
 src/tool1cd/SystemClasses/System.hpp |  4 ++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 0653fa8..6258b5f 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -46,8 +46,8 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 	date.HighPart = pft -> dwHighDateTime;
 	date.LowPart  = pft -> dwLowDateTime;
 
-	// 100-nanoseconds = milliseconds * 10000
-	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000;
+	// 100-nanoseconds = seconds * 10000000
+	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000000;
 
 	// removes the diff between 1970 and 1601
 	date.QuadPart -= adjust.QuadPart;
@@ -61,13 +61,24 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 void UnixTimeToFileTime(time_t t, System::FILETIME * pft)
 {
 
-	uint64_t ll = UInt32x32To64(t, 10000000) + SEC_TO_UNIX_EPOCH;
+	uint64_t ll = (uint64_t)((int64_t)t + (int64_t)SEC_TO_UNIX_EPOCH) * 10000000;
 
 	pft->dwLowDateTime = (uint32_t)ll;
 	pft->dwHighDateTime = ll >> 32;
 }
 
 
+//---------------------------------------------------------------------------
+// Время в секундах POSIX по дате и времени UTC
+static time_t make_utc(struct tm *ptm)
+{
+#ifdef _MSC_VER
+	return _mkgmtime(ptm);
+#else
+	return timegm(ptm);
+#endif
+}
+
 bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpFileTime)
 {
 	struct tm ttm;
@@ -83,7 +94,7 @@ bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpF
 	ttm.tm_wday  = 0; // возможно здесь что-то не то, надо проверять; days since Sunday - [0, 6] 
 	ttm.tm_yday  = 0; // возможно здесь что-то не то, надо проверять; days since January 1 - [0, 365]
 	
-	UnixTime = mktime(&ttm);
+	UnixTime = make_utc(&ttm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -95,6 +106,7 @@ bool LocalFileTimeToFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	// TODO: реализовать кроссплатформенное преобразование локального системного файлового времени в универсальное (UTC) файловое время
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm *ptm  = gmtime(&rawtime);
+	ptm->tm_isdst   = -1; // летнее время определяется по дате
 	time_t UnixTime = mktime(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 	
@@ -107,7 +119,7 @@ bool FileTimeToLocalFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm * ptm = localtime(&rawtime);
-	time_t UnixTime = mktime(ptm);
+	time_t UnixTime = make_utc(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -118,7 +130,7 @@ void GetSystemTime(System::SYSTEMTIME * lpSystemTime)
 {
 	
 	time_t CurrTime = time(NULL);
-	tm *ttm = localtime(&CurrTime);
+	tm *ttm = gmtime(&CurrTime);
 
 	lpSystemTime->wYear   = ttm->tm_year + 1900;
 	lpSystemTime->wMonth  = ttm->tm_mon + 1;
diff --git a/src/tool1cd/SystemClasses/System.hpp b/src/tool1cd/SystemClasses/System.hpp
index 3f1df3c..5a4cfa1 100644
--- a/src/tool1cd/SystemClasses/System.hpp
+++ b/src/tool1cd/SystemClasses/System.hpp
@@ -61,11 +61,11 @@ typedef struct _SYSTEMTIME {
 typedef union _LARGE_INTEGER {
 	struct {
 		uint32_t LowPart;
-		long  HighPart;
+		int32_t  HighPart;
 	};
 	struct {
 		uint32_t LowPart;
-		long  HighPart;
+		int32_t  HighPart;
 	} u;
 	int64_t QuadPart;
 } LARGE_INTEGER;
-- 
2.43.0


From 933809b5393ed8ad91bc0f1f6d15124d78a16a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 37/64] fix: the identifier of a dynamic update is the text
 after its mark

---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 81a66d8..1af1ce9 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -641,7 +641,7 @@ ConfigStorageTableConfig::ConfigStorageTableConfig(TableFiles* tabf, T_1CD* _bas
 		{
 			auto m = name.rfind(sdynupdate);
 			if (m != string::npos) {
-				string update_id = name.substr(m + lsdynupdate - 1, name.size() - m - lsdynupdate);
+				string update_id = name.substr(m + lsdynupdate);
 				name = name.substr(0, m);
 				BinaryGuid update_guid = BinaryGuid(update_id);
 				if (!dynup.empty()) {
-- 
2.43.0


From 96bed1b9506afaf4a6f97dfd03bdf64844ac276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 38/64] fix: names of files of the main configuration are cut
 at the right places

---
 src/tool1cd/ConfigStorage.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 1af1ce9..21b4d18 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -789,10 +789,10 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		pdel = del.find(LowerCase(s));
 		if(pdel != del.end()) continue;
 
-		m = s.rfind(spoint);
-		if (m != string::npos) {
-			name = s.substr(0, m - 1);
-			ext = s.substr(m + 1, s.size() - m);
+		auto dot = s.rfind(spoint);
+		if (dot != string::npos) {
+			name = s.substr(0, dot);
+			ext = s.substr(dot + 1);
 		}
 		else
 		{
@@ -805,10 +805,10 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		}
 		else dynno = -1;
 
-		m = name.find(sdynupdate);
-		if (m != string::npos) {
-			string s = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate + 1);
-			name = name.substr(0, m - 1);
+		auto mark = name.rfind(sdynupdate);
+		if (mark != string::npos) {
+			string s = name.substr(mark + lsdynupdate);
+			name = name.substr(0, mark);
 			string_to_GUID(s, &g);
 			if (!dynup.empty())
 			{
-- 
2.43.0


From 64869d940dff6bfc760c5f5d0fa3e67ba9579bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 39/64] fix: files listed as deleted are left out of the main
 configuration

---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 21b4d18..559cecc 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -735,7 +735,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 			throw ex;
 		}
 		for (auto &guid : dynup) {
-			del.insert(LowerCase(guid.as_MS()));
+			del.insert(LowerCase(guid.as_1C()));
 		}
 	}
 
-- 
2.43.0


From 26321a11d1b9597df3e8b98934dde6c563e7577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 40/64] fix: a byte order mark before a list of guids is
 skipped

---
 src/tool1cd/SystemClasses/TStreamReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStreamReader.cpp b/src/tool1cd/SystemClasses/TStreamReader.cpp
index c4ca7a3..393e6fb 100644
--- a/src/tool1cd/SystemClasses/TStreamReader.cpp
+++ b/src/tool1cd/SystemClasses/TStreamReader.cpp
@@ -28,6 +28,14 @@ namespace Classes {
 TStreamReader::TStreamReader(TStream *stream, bool DetectBOM)
 	: stream(stream)
 {
+	if (DetectBOM) {
+		uint8_t bom[3];
+		auto start = stream->GetPosition();
+		if (stream->Read(bom, sizeof(bom)) != sizeof(bom)
+				|| bom[0] != 0xef || bom[1] != 0xbb || bom[2] != 0xbf) {
+			stream->Seek(start, soBeginning);
+		}
+	}
 }
 
 int TStreamReader::Read()
-- 
2.43.0


From 91246f6b6c402cef20376731dc50d564606bcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 41/64] fix: a depot version without any objects is dumped

---
 src/tool1cd/save_depot_config.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 928026e..200679c 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -281,7 +281,7 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 			rech2 = table_history->get_record(num_rec);
 		}
 
-		if (rech2->get<BinaryGuid>(fldh_objid) != curobj || iHistory_Index == HistoryIndex_numrec) {
+		if (iHistory_Index == HistoryIndex_numrec || rech2->get<BinaryGuid>(fldh_objid) != curobj) {
 			// это новый объект или конец таблицы
 			if(!lastremoved)
 			{
@@ -359,7 +359,9 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 				}
 			}
 
-			curobj = rech2->get<BinaryGuid>(fldh_objid);
+			if (rech2) {
+				curobj = rech2->get<BinaryGuid>(fldh_objid);
+			}
 			lastremoved = true;
 		}
 
-- 
2.43.0


From f453229e542f7e2df4d6e4f4f0717dfd826831f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 42/64] fix: the first number of a range of depot versions is
 read whole

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 1105e06..5467fc7 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -467,7 +467,7 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
 				, 0);
 		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter - 1)
+				.substr(0, splitter)
 				, 0);
 	} else {
 		begin_version = ToIntDef(version_number_param, 0);
-- 
2.43.0


From 0e39dd37fd6fff403863928a85429802295dc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 43/64] fix: the list of removed objects of a partial depot
 dump goes to the output directory

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a2dc786..38e5c92 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -496,7 +496,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	delete sw;
 	if(hasdeleted)
 	{
-		f = new TFileStream(root_path / "deleted", fmCreate);
+		f = new TFileStream(filepath / "deleted", fmCreate);
 		f->CopyFrom(sd, 0);
 		delete f;
 	}
-- 
2.43.0


From dca0b4a1c2a67e8d76c3c4b3d72ab6811b5955c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 44/64] fix: objects of a partial depot dump have the names
 they have in the configuration

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 38e5c92..224c68b 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -255,7 +255,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 				if(hasrech2)
 				{
 					lastver = ToIntDef(rech2->get_string(fldh_vernum), numeric_limits<int32_t>::max());
-					string sObjId = rech2->get_string(fldh_objid);
+					string sObjId = rech2->get<BinaryGuid>(fldh_objid).as_MS();
 
 					hasext = true;
 					bool removed = rech2->get<bool>(fldh_removed);
-- 
2.43.0


From 772d4fcbf77fd3d420f71270a76868d6923fda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 45/64] fix: a partial depot dump finds the objects whose data
 changed within the range

---
 src/tool1cd/save_part_depot_config.cpp | 137 ++++++++++---------------
 1 file changed, 52 insertions(+), 85 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 224c68b..65c837a 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -40,6 +40,30 @@
 using namespace std;
 using namespace System;
 
+bool try_store_blob_data(const TableRecord &record,
+						 const Field *data_field,
+						 bool inflate_stream,
+						 const Field *hash_field,
+						 PackDirectory &pack_directory,
+						 TStream *&out);
+
+// Чтение хранимых (упакованных) данных записи, из базы или из каталога хранилища
+static bool read_packed_data(const TableRecord &record,
+							 const Field *data_field,
+							 const Field *hash_field,
+							 PackDirectory &pack_directory,
+							 TMemoryStream *out)
+{
+	TStream *data = nullptr;
+	if (!try_store_blob_data(record, data_field, false, hash_field, pack_directory, data)) {
+		return false;
+	}
+	std::unique_ptr<TStream> data_holder(data);
+	out->SetSize(0);
+	out->CopyFrom(data, 0);
+	return true;
+}
+
 //---------------------------------------------------------------------------
 // Сохранение файлов конфигурации в каталог из хранилища конфигураций
 // ver_begin - начальный номер диапазона версий сохраняемых файлов конфигурации
@@ -249,7 +273,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 			rech = table_history->get_record(i);
 		}
 
-		if (rech->get<BinaryGuid>(fldh_objid) != curobj || history_iterator == history_records)
+		if (history_iterator == history_records || rech->get<BinaryGuid>(fldh_objid) != curobj)
 		{ // это новый объект или конец таблицы
 			if(history_iterator)
 				if(hasrech2)
@@ -269,89 +293,23 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 					}
 					else
 					{
-						datapacked = false;
-						if (!rech2->is_null_value(fldh_datapacked)) {
-							if (rech2->get<bool>(fldh_datapacked)) {
-								datapacked = true;
-							}
+						if (!read_packed_data(*rech2, fldh_objdata, fldh_datahash, pack_directory, out)) {
+							throw DetailedException("Ошибка чтения объекта конфигурации")
+												.add_detail("Таблица", "HISTORY")
+												.add_detail("Объект", sObjId)
+												.add_detail("Версия", lastver);
 						}
 
-						if(datapacked)
-						{
-							bool changed = true;
-							bool inreaded = false;
-							if(hasrech1)
-							{
-								datapacked = false;
-								if (!rech1->is_null_value(fldh_datapacked)) {
-									if (rech1->get<bool>(fldh_datapacked)) {
-										datapacked = true;
-									}
-								}
-								if(datapacked)
-								{
-									auto b = rech1->get<table_blob_file>(fldh_objdata);
-									if (!rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0)) {
-
-										table_history->readBlob(out, b.blob_start, b.blob_length);
-
-										auto b2 = rech2->get<table_blob_file>(fldh_objdata);
-										if (!rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0)) {
-										{
-											table_history->readBlob(out, b2.blob_start, b2.blob_length);
-											inreaded = true;
-											if (in->GetSize() == out->GetSize()) {
-												if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
-													changed = false;
-												}
-											}
-										}
-									}
-									else if(depotVer >= depot_ver::Ver6)
-									{
-										// TODO: тип под Datahash
-									}
-										if (memcmp(rech2->get_data(fldh_datahash)
-												, rech1->get_data(fldh_datahash)
-												, fldh_datahash->get_length()) == 0) {
-											changed = false;
-										}
-									}
-								}
-							}
-
-							if(changed)
-							{
-								ok = false;
-								deletesobj = false;
-								auto b = rech2->get<table_blob_file>(fldh_objdata);
-								if(inreaded)
-								{
-									sobj = in;
-									ok = true;
-								}
-								else if (!rech2->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0)) {
-									table_history->readBlob(in, b.blob_start, b.blob_length);
-									sobj = in;
-									ok = true;
-								}
-								else if(depotVer >= depot_ver::Ver6)
-								{
-									sobj = pack_directory.get_data(rech2->get_string(fldh_datahash), ok);
-								}
+						bool changed = true;
+						if (hasrech1 && read_packed_data(*rech1, fldh_objdata, fldh_datahash, pack_directory, in)) {
+							changed = in->GetSize() != out->GetSize()
+									|| memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) != 0;
+						}
 
-								if(!ok)
-								{
-									throw DetailedException("Ошибка чтения объекта конфигурации")
-														.add_detail("Таблица", "HISTORY")
-														.add_detail("Объект", sObjId)
-														.add_detail("Версия", lastver);
-								}
-								TFileStream f(cath / sObjId, fmCreate);
-								sobj->Seek(0, soFromBeginning);
-								ZInflateStream(sobj, &f);
-								if(deletesobj) delete sobj;
-							}
+						if (changed) {
+							TFileStream f(cath / sObjId, fmCreate);
+							out->Seek(0, soFromBeginning);
+							ZInflateStream(out, &f);
 						}
 					}
 
@@ -472,7 +430,9 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 					}
 				}
 
-			curobj = rech->get<BinaryGuid>(fldh_objid);
+			if (rech) {
+				curobj = rech->get<BinaryGuid>(fldh_objid);
+			}
 			hasrech1 = false;
 			hasrech2 = false;
 		}
@@ -480,12 +440,19 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 		if(history_iterator < history_records)
 		{
 			int v = ToIntDef(rech->get_string(fldh_vernum), numeric_limits<int32_t>::max());
+			bool removed = rech->get<bool>(fldh_removed);
+			// Записи без данных (datapacked = false) не меняют содержимое объекта
+			bool has_data = !removed && !rech->is_null_value(fldh_datapacked) && rech->get<bool>(fldh_datapacked);
 			if (v < ver_begin)
 			{
-				rech1 = rech;
-				hasrech1 = true;
+				if (removed) {
+					hasrech1 = false;
+				} else if (has_data) {
+					rech1 = rech;
+					hasrech1 = true;
+				}
 			}
-			else if (v <= ver_end)
+			else if (v <= ver_end && (removed || has_data))
 			{
 				rech2 = rech;
 				hasrech2 = true;
-- 
2.43.0


From 3834ee94215196561daa2541215a07736eb9cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 46/64] fix: a file of a container is looked at again for a
 catalog after it was written

---
 src/tool1cd/cfapi/V8File.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index c10a51b..5c9f39b 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -190,6 +190,7 @@ int64_t V8File::write(const void* Buffer, int Start, int Length) // дозапи
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	data->Seek(Start, soFromBeginning);
 	ret = data->Write(Buffer, Length);
 	Lock->Release();
@@ -210,6 +211,7 @@ int64_t V8File::write(std::vector<uint8_t> Buffer, int Start, int Length) // д
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	data->Seek(Start, soFromBeginning);
 	ret = data->Write(Buffer, Length);
 	Lock->Release();
@@ -230,6 +232,7 @@ int64_t V8File::write(const void* Buffer, int Length) // перезапись ц
 
 	is_headermodified = true;
 	_datamodified = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	if (data->GetSize() > Length) data->SetSize(Length);
 	data->Seek(0, soFromBeginning);
 	ret = data->Write(Buffer, Length);
@@ -251,6 +254,7 @@ int64_t V8File::write(TStream* Stream, int Start, int Length) // дозапис
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	data->Seek(Start, soFromBeginning);
 	ret = data->CopyFrom(Stream, Length);
 	Lock->Release();
@@ -271,6 +275,7 @@ int64_t V8File::write(TStream* Stream) // перезапись целиком
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	if (data->GetSize() > Stream->GetSize()) data->SetSize(Stream->GetSize());
 	data->Seek(0, soFromBeginning);
 	ret = data->CopyFrom(Stream, 0);
-- 
2.43.0


From a4c1eeebb2db31f94703b96ad137699000d0f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 47/64] fix: a new .cfu container that stays unchanged is not
 left as an empty file

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 1d2948a..e396e58 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -161,6 +161,8 @@ V8Catalog::V8Catalog(const string &name) // создать каталог из 
 		{
 			data->WriteBuffer(_EMPTY_CATALOG_TEMPLATE, stFileHeader::size());
 			cfu = new TFileStream(name, fmCreate);
+			data->Seek(0, soFromBeginning);
+			ZDeflateStream(data, cfu);
 		}
 		else
 		{
-- 
2.43.0


From b52f10a83640cf275c2e536b131f569731c51e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 48/64] fix: lost objects are saved inside the given directory,
 in databases of version 8.3.8 too

---
 src/tool1cd/Class_1CD.cpp | 37 +++++++++++++++++++++++++++----------
 src/tool1cd/V8Object.cpp  | 17 +++++++++++++++++
 src/tool1cd/V8Object.h    |  2 ++
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 6e2e4c3..05d3318 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1899,20 +1899,37 @@ void T_1CD::find_and_create_lost_tables()
 //---------------------------------------------------------------------------
 void T_1CD::find_and_save_lost_objects(boost::filesystem::path &lost_objects)
 {
+	// страницы известных файлов базы, данные в них не являются заголовками файлов
+	vector<bool> known(length, false);
+	for(auto v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next()) {
+		if(v8obj->get_base() == this) {
+			try {
+				v8obj->mark_pages(known);
+			}
+			catch(DetailedException &) {
+				// таблица размещения повреждена
+			}
+		}
+	}
+
 	for(uint32_t i = 1; i < length; i++) {
 		char buf[8];
+		if(known[i]) {
+			continue;
+		}
 		get_block(buf, i, 8);
-		if(memcmp(buf, SIG_OBJ, 8) == 0) {
-			bool block_is_find = false;
-			for(auto v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next()) {
-				if(v8obj->get_block_number() == i) {
-					block_is_find = true;
-					break;
-				}
-			}
-			if(!block_is_find) {
+		bool is_object = version < db_ver::ver8_3_8_0
+				? memcmp(buf, SIG_OBJ, 8) == 0
+				: buf[0] == '\x1c' && buf[1] == '\xfd';
+		if(is_object) {
+			try {
 				unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
-				find_v8obj->savetofile(lost_objects.string() + "block" + to_string(i));
+				find_v8obj->savetofile(lost_objects / ("block" + to_string(i)));
+			}
+			catch(DetailedException &ex) {
+				// остальные потерянные объекты все равно сохраняются
+				ex.add_detail("Потерянный объект", i);
+				ex.show();
 			}
 		}
 	}
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index cd92e15..f10f07c 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -549,6 +549,23 @@ uint64_t V8Object::get_fileoffset(uint64_t offset)
 
 }
 
+//---------------------------------------------------------------------------
+void V8Object::mark_pages(std::vector<bool> &pages)
+{
+	auto mark = [&pages](uint64_t page) {
+		if(page < pages.size()) pages[page] = true;
+	};
+
+	mark(block);
+	for(auto b : blocks) mark(b);
+	if(type == v8objtype::data80 || type == v8objtype::data838) {
+		uint64_t pagesize = base->get_pagesize();
+		for(uint64_t offset = 0; offset < len; offset += pagesize) {
+			mark(get_fileoffset(offset) / pagesize);
+		}
+	}
+}
+
 //---------------------------------------------------------------------------
 bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 {
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index ff66744..535d77d 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -150,6 +150,8 @@ public:
 	void set_state(const State &state);
 	T_1CD* get_base() const;
 
+	void mark_pages(std::vector<bool> &pages); // отмечает все страницы, занятые объектом
+
 private:
 	T_1CD* base;
 
-- 
2.43.0


From 3eebd3d3ed36ec1bf3721e54528e60fee0bf736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 49/64] fix: every run has a temporary directory of its own

---
 src/tool1cd/TempStream.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d9bd472..a011e55 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -33,11 +33,12 @@ TTempStreamStaticInit TempStreamStaticInit;
 
 static void DelayedInitTempPath()
 {
-	TTempStream::tempcat = boost::filesystem::temp_directory_path() / "t1cd";
-	if (boost::filesystem::exists(TTempStream::tempcat)) {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
-	boost::filesystem::create_directory(TTempStream::tempcat);
+	// у каждого запуска свой каталог, им не пользуется никакой другой
+	boost::filesystem::path own;
+	do {
+		own = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%-%%%%");
+	} while (!boost::filesystem::create_directory(own));
+	TTempStream::tempcat = own;
 }
 
 //---------------------------------------------------------------------------
@@ -51,7 +52,7 @@ TTempStreamStaticInit::TTempStreamStaticInit()
 //---------------------------------------------------------------------------
 TTempStreamStaticInit::~TTempStreamStaticInit()
 {
-	if (!TTempStream::cleanup) {
+	if (!TTempStream::cleanup || TTempStream::tempcat.empty()) {
 		return;
 	}
 	try {
-- 
2.43.0


From 3ce1e424ce8a78ec659c83979abc71194283f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 50/64] fix: configurations read before an import are read
 again after it

---
 src/tool1cd/Class_1CD.cpp | 19 +++++++++++++++++++
 src/tool1cd/Class_1CD.h   |  1 +
 src/tool1cd/Table.cpp     |  1 +
 3 files changed, 21 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 05d3318..a421e2d 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -528,6 +528,8 @@ void T_1CD::find_supplier_configs()
 	// Состоит из 36(GUID) + 1(.) + 36(GUID)
 	constexpr int32_t SUPPLIER_CONFIG_NAME_LEN = 73;
 
+	_supplier_configs.clear(); // от прерванной ошибкой попытки
+
 	for(auto& config_save: get_files_configsave()->files()) {
 		if(config_save.first.size() == SUPPLIER_CONFIG_NAME_LEN) {
 			 add_supplier_config(config_save.second);
@@ -550,6 +552,23 @@ void T_1CD::add_supplier_config(TableFile* table_file)
 	_supplier_configs.push_back(sup_conf);
 }
 
+//---------------------------------------------------------------------------
+void T_1CD::forget_configs()
+{
+	_supplier_configs.clear();
+	supplier_configs_defined = false;
+
+	delete cs_config;
+	cs_config = nullptr;
+	delete cs_configsave;
+	cs_configsave = nullptr;
+
+	for(auto files : { &_files_config, &_files_configsave, &_files_params, &_files_files, &_files_configcas, &_files_configcassave }) {
+		delete *files;
+		*files = nullptr;
+	}
+}
+
 //---------------------------------------------------------------------------
 bool T_1CD::get_readonly()
 {
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 828b7ab..ec8ec05 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -229,6 +229,7 @@ public:
 	bool get_readonly();
 	void set_readonly(bool ro);
 	void flush();
+	void forget_configs(); // содержимое таблиц изменилось, прочитанные из них конфигурации устарели
 
 	bool test_stream_format();
 	bool test_list_of_tables(); // проверка списка таблиц (по DBNames)
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 74acc93..9361138 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1334,6 +1334,7 @@ bool Table::import_table(const boost::filesystem::path &path)
 		throw;
 	}
 
+	base->forget_configs();
 	base->flush();
 
 	return true;
-- 
2.43.0


From d4bf16eb991189a230ecdba17ba5f403200f29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 51/64] fix: quotation marks at the end of an argument do not
 hang the program

---
 src/ctool1cd/ParseCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 7b5429b..b287c5b 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -165,8 +165,8 @@ std::string dequote(const std::string &str)
 	if (result.front() == '\"' && result.back() == '\"') {
 		result = result.substr(1, result.size() - 2);
 	}
-	while (result.back() == '\"') {
-		result = result.substr(0, str.size() - 1);
+	while (!result.empty() && result.back() == '\"') {
+		result.pop_back();
 	}
 	return result;
 }
-- 
2.43.0


From 84d3da80dccb7896a9fb92549cbab4fa864922b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 52/64] fix: a container file whose writing failed is not
 written again on closing

---
 src/tool1cd/cfapi/V8File.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 5c9f39b..cdb1fac 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -535,8 +535,12 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 	if (self) delete self;
 	self = nullptr;
 
+	// если запись не удастся, прежних данных у файла уже нет
 	delete data;
 	data = nullptr;
+	is_opened = false;
+	_datamodified = false;
+	is_headermodified = false;
 
 	if (!parent->data_empty()) {
 		parent->Acquire();
@@ -545,9 +549,6 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 		parent->Release();
 	}
 	iscatalog = FileIsCatalog::unknown;
-	is_opened = false;
-	_datamodified = false;
-	is_headermodified = false;
 	Lock->Release();
 
 	if (Length == -1) return Stream->GetSize();
-- 
2.43.0


From 75577f73baef1173560894a3941657d78aeaaa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 53/64] fix: a damaged header, root object, index or string
 length does not crash the program

---
 src/tool1cd/Class_1CD.cpp | 106 ++++++++++++++++++--------------------
 src/tool1cd/Class_1CD.h   |   1 +
 src/tool1cd/FieldType.cpp |   9 ++--
 src/tool1cd/Index.cpp     |  67 ++++++++++++++----------
 4 files changed, 94 insertions(+), 89 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index a421e2d..9620e08 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -238,15 +238,38 @@ T_1CD::T_1CD(const boost::filesystem::path &_filename, MessageRegistrator *mess,
 	open(_filename, _monopoly);
 }
 
+//---------------------------------------------------------------------------
+// разбирает корневой объект: язык базы (в поле длиной lang_size), количество таблиц и номера блоков их описаний
+void T_1CD::read_root(const char* data, uint64_t size, uint32_t lang_size, std::vector<uint32_t> &table_blocks)
+{
+	uint64_t head = lang_size + sizeof(int32_t);
+	uint32_t count = 0;
+	if(data && size >= head)
+	{
+		memcpy(&count, data + lang_size, sizeof(count));
+	}
+	if(!data || size < head || count > (size - head) / sizeof(uint32_t))
+	{
+		throw DetailedException("Корневой объект базы повреждён")
+				.add_detail("Длина объекта", size)
+				.add_detail("Количество таблиц", count);
+	}
+
+	uint32_t lang_len = strnlen(data, lang_size);
+	locale = new char[lang_len + 1];
+	memcpy(locale, data, lang_len);
+	locale[lang_len] = 0;
+
+	table_blocks.resize(count);
+	memcpy(table_blocks.data(), data + head, count * sizeof(uint32_t));
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 {
-	char* b = nullptr;
-	uint32_t* table_blocks = nullptr;
 	int32_t i, j;
-	TMemoryStream* tstr = nullptr;
-	root_80* root80 = nullptr;
-	root_81* root81 = nullptr;
+	TMemoryStream tstr;
+	std::vector<uint32_t> table_blocks;
 
 	init();
 
@@ -265,10 +288,9 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		throw DetailedException("Ошибка открытия файла базы (файл открыт другой программой?)");
 	}
 
-	v8con* cont = new v8con;
-	base_file->Read(cont, sizeof(v8con));
-
-	if(memcmp(&(cont->sig), SIG_CON, 8) != 0)
+	std::unique_ptr<v8con> cont(new v8con());
+	if(base_file->Read(cont.get(), sizeof(v8con)) != sizeof(v8con)
+			|| memcmp(&(cont->sig), SIG_CON, 8) != 0)
 	{
 		throw DetailedException("Файл не является базой 1С (сигнатура не равна \"1CDBMSV8\")");
 	}
@@ -306,6 +328,11 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		if(pagesize < DEFAULT_PAGE_SIZE || pagesize > 0x10000 || (pagesize & (pagesize - 1)))
+		{
+			throw DetailedException("Неверный размер страницы в заголовке файла базы")
+					.add_detail("Длина страницы", to_hex_string(pagesize));
+		}
 	}
 	else
 	{
@@ -339,48 +366,21 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 
 	if(version == db_ver::ver8_0_3_0 || version == db_ver::ver8_0_5_0)
 	{
-		root80 = (root_80*)root_object->get_data();
-
-		locale = new char[strlen(root80->lang) + 1];
-
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root80->lang) + 1, root80->lang);
-#else
-		strcpy(locale, root80->lang);
-#endif
-
-		num_tables = root80->numblocks;
-		table_blocks = &(root80->blocks[0]);
+		read_root(root_object->get_data(), root_object->get_len(), sizeof(root_80::lang), table_blocks);
+	}
+	else if(version >= db_ver::ver8_3_8_0)
+	{
+		root_object->readBlob(&tstr, 1);
+		read_root(static_cast<const char*>(tstr.GetMemory()), tstr.GetSize(), sizeof(root_81::lang), table_blocks);
 	}
 	else
 	{
-		if(version >= db_ver::ver8_3_8_0)
-		{
-			tstr = new TMemoryStream;
-			root_object->readBlob(tstr, 1);
-			b = new char[tstr->GetSize()];
-			memcpy(b, tstr->GetMemory(), tstr->GetSize());
-			root81 = (root_81*)b;
-		}
-		else
-		{
-			root81 = (root_81*)root_object->get_data();
-		}
-
-		locale = new char[strlen(root81->lang) + 1];
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root81->lang) + 1, root81->lang);
-#else
-		strcpy(locale, root81->lang);
-#endif
-
-		num_tables = root81->numblocks;
-		table_blocks = &(root81->blocks[0]);
-
+		read_root(root_object->get_data(), root_object->get_len(), sizeof(root_81::lang), table_blocks);
 	}
 
-	tables = new Table*[num_tables];
-	for(i = 0, j = 0; i < num_tables; i++)
+	tables = new Table*[table_blocks.size()];
+	num_tables = 0; // растёт по мере чтения, чтобы при ошибке удалялись только прочитанные таблицы
+	for(i = 0, j = 0; i < (int32_t)table_blocks.size(); i++)
 	{
 		if(version < db_ver::ver8_3_8_0)
 		{
@@ -388,8 +388,8 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		}
 		else
 		{
-			root_object->readBlob(tstr, table_blocks[i]);
-			string table_descr = TEncoding::UTF8->toUtf8(tstr->GetBytes());
+			root_object->readBlob(&tstr, table_blocks[i]);
+			string table_descr = TEncoding::UTF8->toUtf8(tstr.GetBytes());
 			tables[j] = new Table(this, table_descr, table_blocks[i]);
 		}
 		if(tables[j]->is_bad())
@@ -418,16 +418,9 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		if(!CompareIC(tables[j]->get_name(), "OUTREFS")) table_outrefs = tables[j];
 
 		if(j % 10 == 0) msreg_m.Status(string("Чтение таблиц ") + to_string(j));
-		j++;
+		num_tables = ++j;
 	}
 	msreg_m.Status(string("Чтение таблиц ") + to_string(j));
-	num_tables = j;
-
-	if(version >= db_ver::ver8_3_8_0)
-	{
-		delete[] b;
-		delete tstr;
-	}
 
 #ifdef getcfname
 	if(!table_config) throw DetailedException("Отсутствует таблица CONFIG");
@@ -473,7 +466,6 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 #endif //#ifdef delic
 #endif //#ifdef getcfname
 
-	delete cont;
 	memBlockManager.garbage(/*aggressive=*/true);
 }
 
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index ec8ec05..a9cf092 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -211,6 +211,7 @@ public:
 	T_1CD();
 	~T_1CD();
 	void open(const boost::filesystem::path &filename, bool monopoly);
+	void read_root(const char* data, uint64_t size, uint32_t lang_size, std::vector<uint32_t> &table_blocks);
 
 	bool is_open();
 	bool is_infobase() const;
diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 041e358..68ad3ca 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -680,12 +680,9 @@ string CommonFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + (length * sizeof(WCHART))));
 		}
 		case type_fields::tf_varchar: {
-			int16_t length = *(int16_t *) fr;
-			fr += sizeof(length);
-			auto full_size = length * sizeof(WCHART);
-			if (full_size > get_size()) {
-				full_size = get_size();
-			}
+			uint16_t value_length = *(uint16_t *) fr;
+			fr += sizeof(value_length);
+			auto full_size = std::min<size_t>(value_length, length) * sizeof(WCHART);
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + full_size));
 		}
 		case type_fields::tf_version: {
diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 84a630f..840a633 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -85,35 +85,41 @@ uint32_t Index::get_numrec(uint32_t num_record) const
 //---------------------------------------------------------------------------
 void Index::create_recordsindex() const
 {
-	char* buf;
-	int32_t curlen;
-	uint64_t curblock;
-	uint32_t mask;
-	V8Object* file_index;
-
 	if(!start) return;
 
 	msreg_g.Status("Чтение индекса ");
 
-	buf = new char[pagesize];
+	V8Object* file_index = tbase->get_file_index();
+	std::vector<char> page(pagesize);
+	char* buf = page.data();
+
+	auto damaged = [this](const char* what) {
+		return DetailedException(string("Ошибка чтения индекса. ") + what)
+			.add_detail("Таблица", tbase->get_name())
+			.add_detail("Индекс", name);
+	};
 
-	file_index = tbase->get_file_index();
 	file_index->get_data(buf, start, 8);
 
 	rootblock = *(uint32_t*)buf;
 	if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-	length = *(int16_t*)(buf + 4);
+	length = *(uint16_t*)(buf + 4);
 
-	curblock = rootblock;
+	uint64_t curblock = rootblock;
 
 	file_index->get_data(buf, curblock, pagesize);
-	curlen = *(int16_t*)(buf + 2);
+	uint32_t curlen = *(uint16_t*)(buf + 2);
+	recordsindex.clear();
 	if(curlen)
 	{
-		recordsindex.resize(tbase->get_file_data()->get_len() / tbase->get_recordlen());
+		uint64_t max_records = tbase->get_file_data()->get_len() / tbase->get_recordlen();
+		uint64_t max_pages = file_index->get_len() / pagesize; // больше страниц, чем есть в файле, не прочитать без повторов
 		bool is_leaf = buf[0] & 0x2;
 		while(!is_leaf)
 		{
+			if(max_pages-- == 0 || 16 + length + sizeof(uint32_t) > pagesize) {
+				throw damaged("Неверная страница-ветка");
+			}
 			curblock = *(uint32_t*)(buf + 16 + length);
 			curblock = 	reverse_byte_order(curblock);
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
@@ -122,31 +128,40 @@ void Index::create_recordsindex() const
 			is_leaf = buf[0] & 0x2;
 		}
 
-		unsigned curindex = 0;
+		recordsindex.reserve(max_records);
 		while(true)
 		{
-			curlen = *(int16_t*)(buf + 2);
+			curlen = *(uint16_t*)(buf + 2);
 			curblock = *(uint32_t*)(buf + 8);
-			mask = *(uint32_t*)(buf + 14);
-			int32_t rlen = *(int16_t*)(buf + 28);
-			char *rbuf = buf + 30;
-			for (int32_t i = 0; i < curlen; i++)
+			uint32_t mask = *(uint32_t*)(buf + 14);
+			uint32_t rlen = *(uint16_t*)(buf + 28);
+			if(30 + static_cast<uint64_t>(curlen) * rlen > pagesize) {
+				throw damaged("Записи выходят за пределы страницы");
+			}
+			if(curlen > max_records - recordsindex.size()) {
+				throw damaged("Записей в индексе больше, чем в таблице");
+			}
+			const char *rbuf = buf + 30;
+			for (uint32_t i = 0; i < curlen; i++)
 			{
-				recordsindex[curindex++] = *(uint32_t*)rbuf & mask;
+				uint32_t numrec = 0;
+				memcpy(&numrec, rbuf, std::min<size_t>(sizeof(numrec), buf + pagesize - rbuf));
+				recordsindex.push_back(numrec & mask);
 				rbuf += rlen;
-				if(curindex % 10000 == 0) {
-					msreg_g.Status(string("Чтение индекса ") + to_string(curindex));
+				if(recordsindex.size() % 10000 == 0) {
+					msreg_g.Status(string("Чтение индекса ") + to_string(recordsindex.size()));
 				}
 			}
 			if(curblock == LAST_PAGE) break; // FIXME: разобраться LAST_PAGE == UINT_MAX, а тут uint64_t curblock
+			if(max_pages-- == 0) {
+				throw damaged("Цепочка страниц зациклена");
+			}
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
 			file_index->get_data(buf, curblock, pagesize);
 		}
-		recordsindex.resize(curindex);
 	}
 
 	recordsindex_complete = true;
-	delete[] buf;
 	tbase->set_log_numrecords(recordsindex.size());
 	msreg_g.Status("");
 }
@@ -317,7 +332,7 @@ uint32_t Index::get_rootblock() const
 		tbase->get_file_index()->get_data(buf, start, 8);
 		rootblock = *(uint32_t*)buf;
 		if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-		length = *(int16_t*)(buf + 4);
+		length = *(uint16_t*)(buf + 4);
 	}
 	return rootblock;
 }
@@ -333,7 +348,7 @@ uint32_t Index::get_length() const
 		tbase->get_file_index()->get_data(buf, start, 8);
 		rootblock = *(uint32_t*)buf;
 		if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-		length = *(int16_t*)(buf + 4);
+		length = *(uint16_t*)(buf + 4);
 	}
 	return length;
 }
@@ -377,7 +392,7 @@ void Index::dump(const string &_filename)
 		file_index->get_data(buf, start, 8);
 		rootblock = *(uint32_t*)buf;
 		if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-		length = *(int16_t*)(buf + 4);
+		length = *(uint16_t*)(buf + 4);
 	}
 
 	string index_info = string("Index length ").append(to_string(length)).append("\r\n");
-- 
2.43.0


From b0ac680a0fc8d8d30fd44494731aa9212f8190ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 54/64] fix: names from a damaged database do not lead out of
 the output directory

---
 src/ctool1cd/App.cpp                   |  6 +++---
 src/tool1cd/Common.cpp                 | 18 ++++++++++++++++++
 src/tool1cd/Common.h                   |  3 +++
 src/tool1cd/Table.cpp                  |  5 +++--
 src/tool1cd/cfapi/V8Catalog.cpp        |  4 ++--
 src/tool1cd/save_part_depot_config.cpp |  4 ++--
 6 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 5467fc7..cfd28f5 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -83,7 +83,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 
 		tbl->fill_records_index();
 
-		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+		boost::filesystem::path filetable = root_path / inner_file_name(tbl->get_name() + ".xml");
 
 		tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 
@@ -149,7 +149,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		if (b) {
 			tbl->fill_records_index();
 
-			boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+			boost::filesystem::path filetable = root_path / inner_file_name(tbl->get_name() + ".xml");
 			tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 				.with("Таблица", tbl->get_name())
@@ -362,7 +362,7 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 
 	for (auto& supplier_config : base1CD->supplier_configs()) {
 		string file_name = supplier_config->name() + " " + supplier_config->version() + CF_STR;
-		boost::filesystem::path cfpath = param_path / file_name;
+		boost::filesystem::path cfpath = param_path / inner_file_name(file_name);
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
 					.with("Файл", cfpath.string());
diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index a14feab..789d2da 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -169,6 +169,24 @@ unsigned char from_hex_digit(char digit)
 	return 0;
 }
 
+std::string inner_file_name(const std::string &name)
+{
+	std::string result = name;
+	for (auto &c : result) {
+#ifdef _WIN32
+		if (c == '/' || c == '\\' || c == ':' || c == 0) {
+#else
+		if (c == '/' || c == 0) {
+#endif
+			c = '_';
+		}
+	}
+	if (result.empty() || result == "." || result == "..") {
+		result = "_" + result;
+	}
+	return result;
+}
+
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory) {
 	if(!boost::filesystem::exists(check_path)) {
 		if(create_directory) {
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 0002089..6f6febf 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -59,6 +59,9 @@ std::string to_hex_string( T num, bool prefix = true ) {
 	return stream.str();
 }
 
+// имя файла внутри каталога: имена из базы или контейнера не должны уводить за его пределы
+std::string inner_file_name(const std::string &name);
+
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory = false);
 
 #endif
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 9361138..c1b29b3 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1034,6 +1034,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						}
 						outputvalue += field->get_name();
 					}
+					outputvalue = inner_file_name(outputvalue);
 					std::string base_name = outputvalue;
 					for (int32_t n = 2; !used_names.insert(LowerCase(outputvalue)).second; n++) {
 						outputvalue = base_name + "_" + to_string(n);
@@ -1134,7 +1135,7 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 //---------------------------------------------------------------------------
 bool Table::export_table(const boost::filesystem::path &path) const
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / inner_file_name(name);
 	if(!directory_exists(dir, true)) {
 		return false;
 	}
@@ -1211,7 +1212,7 @@ static std::unique_ptr<TFileStream> open_import_file(const boost::filesystem::pa
 //---------------------------------------------------------------------------
 bool Table::import_table(const boost::filesystem::path &path)
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / inner_file_name(name);
 
 	if(!directory_exists(dir)) {
 		return false;
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index e396e58..2a2337f 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -771,10 +771,10 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 	while(f)
 	{
 		if(f->is_catalog()) {
-			f->get_catalog()->SaveToDir(dir / f->get_file_name());
+			f->get_catalog()->SaveToDir(dir / inner_file_name(f->get_file_name()));
 		}
 		else {
-			f->save_to_file(dir / f->get_file_name());
+			f->save_to_file(dir / inner_file_name(f->get_file_name()));
 		}
 		f->close();
 		f = f->get_next();
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 65c837a..f9a7550 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -402,10 +402,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 												cat = new V8Catalog(out, false, true);
 												iscatalog = cat->is_catalog();
 											}
-											if(iscatalog) cat->SaveToDir((cath / ext_name).string());
+											if(iscatalog) cat->SaveToDir((cath / inner_file_name(ext_name)).string());
 											else
 											{
-												TFileStream f(cath / ext_name, fmCreate);
+												TFileStream f(cath / inner_file_name(ext_name), fmCreate);
 												f.CopyFrom(out, 0);
 											}
 											delete cat;
-- 
2.43.0


From 02b9daef5ae50c9885b1aaf0a3b23d63b4e16bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 55/64] fix: a wrong file part number, field name or list of
 dynamic updates in a damaged database does not crash the program

---
 src/tool1cd/ConfigStorage.cpp | 5 +++--
 src/tool1cd/Table.cpp         | 2 +-
 src/tool1cd/Table.h           | 2 +-
 src/tool1cd/TableFiles.cpp    | 7 +++++++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 559cecc..cc21679 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -1155,11 +1155,12 @@ std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt)
 
 	int ndynup = ToIntDef(ct->get_value(), 0);
 	std::vector<BinaryGuid> dynup;
-	dynup.reserve(ndynup);
 	if (ndynup > 0) {
-		dynup.reserve(ndynup);
 		while (ndynup--) {
 			ct = ct->get_next();
+			if (!ct) {
+				throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
+			}
 			dynup.emplace_back(BinaryGuid(ct->get_value()));
 		}
 	}
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index c1b29b3..a3b94bd 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2428,7 +2428,7 @@ Field* Table::get_field(const std::string &fieldname) const
 	throw error;
 }
 
-Field* Table::find_field(const std::string &fieldname) const throw()
+Field* Table::find_field(const std::string &fieldname) const
 {
 	for (int32_t j = 0; j < num_fields; j++) {
 		Field* fld = fields[j];
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index a6d2d7d..7d80766 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -182,7 +182,7 @@ public:
 	char* get_record_template_test();
 
 	Field* get_field(const std::string &fieldname) const;
-	Field* find_field(const std::string &fieldname) const throw();
+	Field* find_field(const std::string &fieldname) const;
 	Index* get_index(const std::string &indexname) const;
 	Index* find_index(const std::string &indexname) const throw();
 
diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index 2bf5d5f..0e5d034 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -103,6 +103,13 @@ TableFiles::TableFiles(Table* t)
 
 		if(partno) tr.partno = ToIntDef(record->get_string(partno), 0);
 		else tr.partno = 0;
+		if (tr.partno < 0 || (uint32_t)tr.partno >= table->get_phys_numrecords()) {
+			// частей файла не может быть больше, чем записей в таблице
+			throw DetailedException("Неверный номер части файла в таблице контейнера файлов.")
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Имя файла", tr.name)
+				.add_detail("Номер части", tr.partno);
+		}
 		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create));
 		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify));
 
-- 
2.43.0


From 462d17a21ca9df70cf345dbecb5a4d9287ec5c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 56/64] fix: an internal file whose creation failed is not kept
 in the list of all of them

---
 src/tool1cd/V8Object.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index f10f07c..6539aa2 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -248,17 +248,16 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		blocks.clear();
 	}
 
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
-
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
 			.with("Длина", len)
 			.with("Версия данных", to_string(version.version_1).append(":").append(to_string(version.version_2)));
 
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 63e6891db44bc1ef580af03dc8f74a61b1f564f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 57/64] fix: a log file that cannot be written is reported, and
 a directory given as one is not removed

---
 src/tool1cd/Messenger.cpp | 34 ++++++++++++++++++++++++++--------
 src/tool1cd/Messenger.h   |  1 +
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index db27ef0..85669ca 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -52,25 +52,43 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 		return;
 	}
 
-	shared_ptr<ostream> output (&cerr, [](...){} );
-
 	if (!logfile.empty()) {
-		output = make_shared<boost::filesystem::ofstream>(boost::filesystem::path(logfile), std::ios_base::app);
+		boost::filesystem::ofstream output(boost::filesystem::path(logfile), std::ios_base::app);
+		write_message(output, message, param);
+		output.close();
+		if (output) {
+			return;
+		}
+		has_error = true; // журнал не удалось дополнить, сообщение выводится на экран
 	}
-	*output << message << endl;
+	write_message(cerr, message, param);
+}
+
+//---------------------------------------------------------------------------
+void Messenger::write_message(ostream &output, const string &message, const TStringList *param)
+{
+	output << message << endl;
 	if (param) {
 		for (auto it : *param) {
-			*output << "\t" << it << endl;
+			output << "\t" << it << endl;
 		}
 	}
-	output->flush();
+	output.flush();
 }
 
 //---------------------------------------------------------------------------
 void Messenger::setlogfile(const string &_logfile)
 {
-	logfile = System::Ioutils::TPath::GetFullPath(_logfile);
-	if(FileExists(logfile)) DeleteFile(logfile);
+	const string path = System::Ioutils::TPath::GetFullPath(_logfile);
+	// журнал начинается заново
+	boost::filesystem::ofstream output(boost::filesystem::path(path), std::ios_base::trunc);
+	if (!output) {
+		TStringList details;
+		details.push_back("Файл=" + path);
+		AddDetailedMessage("Не удалось открыть файл журнала", MessageState::Error, &details);
+		return;
+	}
+	logfile = path;
 }
 
 void Messenger::set_log_level(const MessageState _minimal_state)
diff --git a/src/tool1cd/Messenger.h b/src/tool1cd/Messenger.h
index 1ce3529..a297261 100644
--- a/src/tool1cd/Messenger.h
+++ b/src/tool1cd/Messenger.h
@@ -28,6 +28,7 @@ class Messenger : public MessageRegistrator
 private:
 	std::string logfile;
 	bool noverbose;
+	void write_message(std::ostream &output, const std::string &message, const TStringList *param);
 	MessageState minimal_state;
 public:
 	bool has_error;
-- 
2.43.0


From d8f5fefcc36f887f1cebf2340b5568d9345c3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 58/64] fix: a blob value that cannot be unpacked is given as
 stored, without the remains of the attempt

---
 src/tool1cd/TableRecord.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..839e42c 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -185,11 +185,7 @@ bool TableRecord::try_store_blob_data(const Field *field, TStream *&out, bool in
 		TMemoryStream in;
 		table->readBlob(&in, b.blob_start, b.blob_length);
 		in.Seek(0, soFromBeginning);
-		try {
-			ZInflateStream(&in, out);
-		} catch (ZError) {
-			out->CopyFrom(&in, 0);
-		}
+		ZInflateOrCopy(&in, out);
 	}
 	else {
 		table->readBlob(out, b.blob_start, b.blob_length);
-- 
2.43.0


From 82f48a266f061cd77f9d9715866b94dcecdf65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 59/64] fix: a numeric field with more decimals than digits in
 a table's description is refused

---
 src/tool1cd/FieldType.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 68ad3ca..a50a4f2 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -864,6 +864,12 @@ field_type_declaration field_type_declaration::parse_tree(Tree *field_tree)
 		throw FieldStreamParseException("Ошибка получения точности поля таблицы. Узел не является числом.");
 	}
 	type_declaration.precision = stoi(field_tree->get_value());
+	if(type_declaration.type == type_fields::tf_numeric
+			&& (type_declaration.precision < 0 || type_declaration.precision > type_declaration.length)) {
+		throw FieldStreamParseException("Точность числового поля таблицы не может быть больше его длины.")
+				.add_detail("Длина поля", type_declaration.length)
+				.add_detail("Точность поля", type_declaration.precision);
+	}
 
 	field_tree = field_tree->get_next();
 	if(field_tree->get_type() != node_type::nd_string) {
-- 
2.43.0


From 93ad36d16b4722ba80bd83ca97cd07fdfc649438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 60/64] fix: a field length in a table's description that is
 negative or overflows the record length is refused

---
 src/tool1cd/FieldType.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index a50a4f2..20c2bf1 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -31,6 +31,8 @@ using namespace std;
 
 // TODO: инициализация null_index
 static char null_index[4096];
+// наибольшая допустимая длина поля в описании таблицы (при большей длина записи может переполниться)
+static const int32_t MAX_FIELD_LENGTH = 0xffff;
 bool FieldType::showGUIDasMS = false;
 bool FieldType::showGUID = false;
 
@@ -858,6 +860,11 @@ field_type_declaration field_type_declaration::parse_tree(Tree *field_tree)
 		throw FieldStreamParseException("Ошибка получения длины поля таблицы. Узел не является числом.");
 	}
 	type_declaration.length = stoi(field_tree->get_value());
+	if(type_declaration.length < 0 || type_declaration.length > MAX_FIELD_LENGTH) {
+		throw FieldStreamParseException("Недопустимая длина поля таблицы.")
+				.add_detail("Тип поля", sFieldType)
+				.add_detail("Длина поля", type_declaration.length);
+	}
 
 	field_tree = field_tree->get_next();
 	if(field_tree->get_type() != node_type::nd_number) {
-- 
2.43.0


From 827d7cac981fbf6aad06a456904b3260ef9fad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 61/64] fix: the place in the file of a record beyond 4 GB of
 its table's data

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index a3b94bd..a182659 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1081,7 +1081,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 //---------------------------------------------------------------------------
 uint64_t Table::get_file_offset(uint32_t phys_numrecord)
 {
-	uint32_t _offset = phys_numrecord * recordlen;
+	uint64_t _offset = static_cast<uint64_t>(phys_numrecord) * recordlen;
 	return file_data->get_fileoffset(_offset);
 }
 
-- 
2.43.0


From 6fc83b6666b87723ff455bb63b6f7413985b4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:02 +0000
Subject: [PATCH 62/64] fix: the directories of a path in a configuration
 source are looked up by their whole names

---
 src/tool1cd/ConfigStorage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index cc21679..f1d3d09 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -126,7 +126,7 @@ ConfigFile* ConfigStorageCFFile::readfile(const std::string &path)
 	V8Catalog* c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		V8File *f = c->get_file(fname.substr(0, i - 1));
+		V8File *f = c->get_file(fname.substr(0, i));
 		if(!f) {
 			return nullptr;
 		}
@@ -164,7 +164,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		c = c->CreateCatalog(fname.substr(0, i - 1));
+		c = c->CreateCatalog(fname.substr(0, i));
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
@@ -202,7 +202,7 @@ bool ConfigStorageCFFile::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 	V8File *f = cat->get_file(fname);
 	return f != nullptr;
@@ -422,7 +422,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 	{
 		auto i = fname.find("\\");
 		if (i != string::npos) {
-			top_level_name = fname.substr(0, i - 1);
+			top_level_name = fname.substr(0, i);
 			fname = fname.substr(i + 1, fname.size() - i - 1);
 		} else {
 			top_level_name = fname;
@@ -443,7 +443,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 		}
 		V8Catalog *parent_cat = top_file->cat;
 		for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\")) {
-			V8File *f = parent_cat->get_file(fname.substr(0, i - 1));
+			V8File *f = parent_cat->get_file(fname.substr(0, i));
 			if (!f) {
 				// TODO: бросить исключение???
 				return nullptr;
@@ -564,7 +564,7 @@ bool ConfigStorageTable::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 
 	return files.find(LowerCase(fname)) != files.end();
-- 
2.43.0


From ebd219a94b9984ddd46c06fcb714f29ab3d48688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:41 +0000
Subject: [PATCH 63/64] fix: a configuration file whose reading failed is not
 kept as an open one with a part of its contents

---
 src/tool1cd/ConfigStorage.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index f1d3d09..d19ab8c 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -251,6 +251,10 @@ bool ContainerFile::open()
 	addr = file->addr;
 	maxpartno = file->maxpartno;
 
+	std::unique_ptr<TStream> packed_data;
+
+	try {
+
 	if(maxpartno > 0) stream = new TTempStream;
 	else stream = new TMemoryStream;
 
@@ -272,8 +276,9 @@ bool ContainerFile::open()
 	{
 		if(packed == table_file_packed::yes)
 		{
-			if(maxpartno > 0) ts = new TTempStream;
-			else ts = new TMemoryStream;
+			if(maxpartno > 0) packed_data.reset(new TTempStream);
+			else packed_data.reset(new TMemoryStream);
+			ts = packed_data.get();
 		}
 		else ts = stream;
 
@@ -286,15 +291,16 @@ bool ContainerFile::open()
 	{
 		ts->Seek(0l, soBeginning);
 		ZInflateStream(ts, stream);
-		if(!rstream)
-		{
-			delete ts;
-		}
 	}
 
 	stream->Seek(0l, soBeginning);
 	return true;
 
+	} catch (...) {
+		close(); // недочитанный поток не должен считаться открытым
+		throw;
+	}
+
 }
 
 //---------------------------------------------------------------------------
@@ -325,7 +331,13 @@ bool ContainerFile::ropen()
 	if(maxpartno > 0) rstream = new TTempStream;
 	else rstream = new TMemoryStream;
 
-	for(i = 0; i <= maxpartno; ++i) t->readBlob(rstream, addr[i].blob_start, addr[i].blob_length, false);
+	try {
+		for(i = 0; i <= maxpartno; ++i) t->readBlob(rstream, addr[i].blob_start, addr[i].blob_length, false);
+	} catch (...) {
+		delete rstream;
+		rstream = nullptr;
+		throw;
+	}
 
 	rstream->Seek(0l, soBeginning);
 	return true;
-- 
2.43.0


From 650ec50a9d1a27dece48c6cab772a675eeedd587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 64/64] fix: a file of which it cannot be found out whether it
 is a directory is not read as an empty file

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 6082c47..912157e 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -73,6 +73,10 @@ void TFileStream::open_stream(std::ios_base::openmode mode)
 	if (boost::filesystem::is_directory(filename, ec)) {
 		throw Exception(filename + ": " + std::strerror(EISDIR));
 	}
+	if (ec) {
+		// что открыто, неизвестно
+		throw Exception(filename + ": " + ec.message());
+	}
 	_stream = stream;
 	reopen(_stream);
 }
-- 
2.43.0

