From d20d16c37f24e146fcff1afc066ade6fd796b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 01/97] fix: print an empty list as {} so that the tree
 survives printing and parsing

---
 src/tool1cd/Parse_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index b52466e..5974366 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -194,7 +194,7 @@ void Tree::outtext(std::string &text)
 	node_type lt = node_type::nd_unknown;
 	TReplaceFlags _ReplaceAll = TReplaceFlags::rfReplaceAll;
 
-	if(num_subnode)
+	if(num_subnode || type == node_type::nd_list)
 	{
 		if (!text.empty()) {
 			text += "\r\n";
-- 
2.43.0


From 8c39c6ef6145829fff456ff4ffffdbbf81324651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 02/97] fix: read the hexadecimal fields of a block header
 within their eight characters

---
 src/tool1cd/cfapi/APIcfBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index b18a80c..74b901b 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -33,7 +33,7 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 
 int32_t stBlockHeader::get_data_size() const {
 	string hex("0x");
-	hex.append(data_size_hex);
+	hex.append(data_size_hex, sizeof(data_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -49,7 +49,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 
 int32_t stBlockHeader::get_page_size() const {
 	string hex("0x");
-	hex.append(page_size_hex);
+	hex.append(page_size_hex, sizeof(page_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -65,7 +65,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 
 int32_t stBlockHeader::get_next_page_addr() const {
 	string hex("0x");
-	hex.append(next_page_addr_hex);
+	hex.append(next_page_addr_hex, sizeof(next_page_addr_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
-- 
2.43.0


From 0a1d12af1147f8d265faa190a375476a9a0e866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 03/97] fix: copy nothing, not the whole stream, for a
 container block of zero length

---
 src/tool1cd/cfapi/V8Catalog.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6ba6e48..1447ccc 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -61,7 +61,9 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	stream_to->CopyFrom(stream_from, readlen);
+	if(readlen) {
+		stream_to->CopyFrom(stream_from, readlen);
+	}
 
 	int32_t pos = readlen;
 
@@ -74,7 +76,9 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		stream_to->CopyFrom(stream_from, readlen);
+		if(readlen) {
+			stream_to->CopyFrom(stream_from, readlen);
+		}
 		pos += readlen;
 	}
 
@@ -533,7 +537,9 @@ int V8Catalog::write_datablock(TStream* block, int start, bool _zipped, int len)
 		else
 		{
 			stream = new TMemoryStream;
-			stream->CopyFrom(block, len);
+			if(len) {
+				stream->CopyFrom(block, len);
+			}
 			stream2 = new TMemoryStream;
 			stream->Seek(0, soFromBeginning);
 			ZDeflateStream(stream, stream2);
@@ -642,7 +648,9 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 
 		data->Seek(start, soFromBeginning);
 		data->WriteBuffer(&block_header, stBlockHeader::size());
-		data->CopyFrom(block, curlen);
+		if(curlen) {
+			data->CopyFrom(block, curlen);
+		}
 		if(addwrite) {
 			_t = new char [blocklen - len];
 			memset(_t, 0, blocklen - len);
-- 
2.43.0


From 7b6a9065e20f8e4f8a204ffd615f7f0fef63bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 04/97] fix: do not use a container member after deleting it

---
 src/tool1cd/cfapi/V8Catalog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 1447ccc..3acabe8 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -392,11 +392,12 @@ void V8Catalog::delete_file(const string &FileName)
 	V8File* f = first;
 	while(f)
 	{
+		V8File* following = f->get_next();
 		if (EqualIC(f->get_file_name(), FileName)) {
 			f->delete_file();
 			delete f;
 		}
-		f = f->get_next();
+		f = following;
 	}
 	Lock->Release();
 }
-- 
2.43.0


From c9a5e8a09302a42f459a72df0827603172bb7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 05/97] fix: read the modification time of a container member
 from its own field

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 3acabe8..1f5b476 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -342,7 +342,7 @@ void V8Catalog::initialize()
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
 				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)_temp_buf + 8;
+				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
 				delete[] _temp_buf;
-- 
2.43.0


From 6853f9d5108a04a2c9ed7716fa15ff8b1e847cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 06/97] fix: drop the terminating zeros from the name of a
 container member

---
 src/tool1cd/cfapi/V8Catalog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 1f5b476..b5a6e4d 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -341,6 +341,7 @@ void V8Catalog::initialize()
 				// TODO: константы 20, 8
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
+				_name = _name.substr(0, _name.find('\0')); // имя завершается нулями
 				int64_t time_create = *(int64_t*)_temp_buf;
 				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
-- 
2.43.0


From cf77de107688fdfa047729a2846a693922eb4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 07/97] fix: renaming a container member renames it for lookups
 and in the file

---
 src/tool1cd/cfapi/V8File.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 38846ed..347f9fd 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -307,6 +307,12 @@ std::string V8File::get_full_name()
 // устанавливает имя
 void V8File::set_file_name(const string &_name)
 {
+	if(parent) {
+		V8Catalog::V8Files& files = parent->v8files();
+		files.erase(LowerCase(name));
+		files[LowerCase(_name)] = this;
+		open(); // заголовок записывается при закрытии открытого файла
+	}
 	name = _name;
 	is_headermodified = true;
 }
-- 
2.43.0


From 5eae0068444bc7c31dd35263e13856802bfcc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 08/97] fix: finish the compressed stream when the source is a
 multiple of the chunk size

---
 src/tool1cd/UZLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..470b402 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -61,7 +61,8 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
+		if (strm.avail_in == 0 && strm.total_in == 0) {
+			(void) deflateEnd(&strm);
 			return false;
 		}
 		/* TODO: ZDeflateStream проверка ошибок */
-- 
2.43.0


From 67a320ee708de3ab6c038a5dc5689a12b3386912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 09/97] fix: a file stream accepts writes after a read reached
 the end of the file

---
 src/tool1cd/SystemClasses/TStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..8ff1c5a 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -208,6 +208,7 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
+	_stream->clear();
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
-- 
2.43.0


From e8c11f23d2a1fbabd90f15c3fc19ea49ae12b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 10/97] fix: a newly created .cfu file holds an empty container
 from the start

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index b5a6e4d..b1926c5 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -172,6 +172,8 @@ V8Catalog::V8Catalog(const string &name) // создать каталог из 
 		{
 			data->WriteBuffer(_EMPTY_CATALOG_TEMPLATE, stFileHeader::size());
 			cfu = new TFileStream(name, fmCreate);
+			data->Seek(0, soFromBeginning);
+			ZDeflateStream(data, cfu);
 		}
 		else
 		{
-- 
2.43.0


From af5898a10179503e4cc27a72c3265347abad4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 11/97] fix: closing a file stream twice is harmless

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 790071d..b492052 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -76,8 +76,10 @@ void TFileStream::Reopen()
 
 void TFileStream::Close()
 {
-	_stream->close();
-	_stream.reset();
+	if (_stream) {
+		_stream->close();
+		_stream.reset();
+	}
 }
 
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
-- 
2.43.0


From 2255dead8288dc964990cf390dbccaeaf9c7af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 12/97] fix: a container member that is created and never
 written is saved as an empty one

---
 src/tool1cd/cfapi/V8Catalog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index b1926c5..1806122 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -440,6 +440,7 @@ V8File* V8Catalog::createFile(const string &FileName, bool _selfzipped){
 		f->set_time_create(v8t);
 		f->set_time_modify(v8t);
 		f->set_self_zipped(_selfzipped);
+		f->open(); // заголовок и данные записываются при закрытии открытого файла
 		last = f;
 		_fatmodified = true;
 	}
-- 
2.43.0


From eda9ad9127fb347249d6ecf628131bb22a4b442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 13/97] fix: copy as many page numbers as an object has, not
 four times as many

---
 src/tool1cd/V8Object.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..94dad77 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1136,7 +1136,7 @@ void V8Object::set_len(uint64_t _len)
 		len = _len;
 		if(numblocks > 0) {
 			std::copy(std::begin(b->blocks),
-					  std::begin(b->blocks) + (numblocks * 4),
+					  std::begin(b->blocks) + numblocks,
 					  blocks.begin());
 		}
 
@@ -1262,9 +1262,7 @@ void V8Object::set_len(uint64_t _len)
 
 		len = _len;
 		if(numblocks > 0) {
-			std::copy(std::begin(bd->blocks),
-					  std::begin(bd->blocks) + (numblocks * 4),
-					  blocks.begin());
+			blocks.assign(bd->blocks, bd->blocks + numblocks);
 		}
 
 		write_new_version();
@@ -1301,7 +1299,7 @@ void V8Object::set_block_as_free(uint32_t block_number)
 		real_numblocks++;
 		blocks.resize(real_numblocks);
 		std::copy(std::begin(ob->blocks),
-				  std::begin(ob->blocks) + (real_numblocks * 4),
+				  std::begin(ob->blocks) + real_numblocks,
 				  blocks.begin());
 	}
 
-- 
2.43.0


From e64783cb9418062afd94eb2c941484408e0f3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 14/97] fix: stop freeing pages when an object is shrunk to
 nothing

---
 src/tool1cd/V8Object.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 94dad77..ab20467 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1117,8 +1117,9 @@ void V8Object::set_len(uint64_t _len)
 		{
 			// Уменьшение длины объекта
 			objtab *ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+			while(cur_data_blocks > num_data_blocks)
 			{
+				cur_data_blocks--;
 				i = cur_data_blocks % 1023;
 				base->set_block_as_free(ot->blocks[i]);
 				ot->blocks[i] = 0;
@@ -1223,8 +1224,9 @@ void V8Object::set_len(uint64_t _len)
 			if(fatlevel)
 			{
 				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					i = cur_data_blocks % offsperpage;
 					base->set_block_as_free(bb->blocks[i]);
 					bb->blocks[i] = 0;
@@ -1238,8 +1240,9 @@ void V8Object::set_len(uint64_t _len)
 			}
 			else
 			{
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					base->set_block_as_free(bd->blocks[cur_data_blocks]);
 					bd->blocks[cur_data_blocks] = 0;
 				}
-- 
2.43.0


From 75faec1fddc5995caf318e95194e43367fcdbeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 15/97] fix: keep the page table of an 8.3.8 object right when
 its length changes

---
 src/tool1cd/V8Object.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index ab20467..62bc38f 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1180,7 +1180,12 @@ void V8Object::set_len(uint64_t _len)
 		if(num_data_blocks > cur_data_blocks)
 		{
 			// Увеличение длины объекта
-			if(fatlevel == 0 && newfatlevel)
+			if(fatlevel == 0 && newfatlevel && numblocks == 0)
+			{
+				fatlevel = newfatlevel;
+				bd->fatlevel = newfatlevel;
+			}
+			else if(fatlevel == 0 && newfatlevel)
 			{
 				bl = base->get_free_block();
 				bb = (objtab838*)base->get_block_for_write(bl, false);
@@ -1190,7 +1195,7 @@ void V8Object::set_len(uint64_t _len)
 				bd->blocks[0] = bl;
 				numblocks = 1;
 			}
-			else bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+			else if(fatlevel && numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 
 			if(fatlevel)
 			{
@@ -1216,6 +1221,7 @@ void V8Object::set_len(uint64_t _len)
 					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
 					bd->blocks[cur_data_blocks] = bl;
 				}
+				numblocks = num_data_blocks;
 			}
 		}
 		else if(num_data_blocks < cur_data_blocks)
@@ -1223,7 +1229,7 @@ void V8Object::set_len(uint64_t _len)
 			// Уменьшение длины объекта
 			if(fatlevel)
 			{
-				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+				bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 				while(cur_data_blocks > num_data_blocks)
 				{
 					cur_data_blocks--;
@@ -1234,7 +1240,7 @@ void V8Object::set_len(uint64_t _len)
 					{
 						base->set_block_as_free(bd->blocks[--numblocks]);
 						bd->blocks[numblocks] = 0;
-						if(numblocks) bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+						if(numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 					}
 				}
 			}
@@ -1256,6 +1262,7 @@ void V8Object::set_len(uint64_t _len)
 					bl = bd->blocks[0];
 					memcpy(bd->blocks, bb->blocks, num_data_blocks * 4);
 					base->set_block_as_free(bl);
+					numblocks = num_data_blocks;
 				}
 				fatlevel = 0;
 				bd->fatlevel = 0;
-- 
2.43.0


From be36e425552b1e0735f043082dc8c8226a9b9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 16/97] fix: leave the 8.3.8 free page list alone when a page
 is released

---
 src/tool1cd/V8Object.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 62bc38f..819ed8f 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1289,6 +1289,12 @@ void V8Object::set_block_as_free(uint32_t block_number)
 			.add_detail("Блок объекта", block);
 	}
 
+	if(type == v8objtype::free838)
+	{
+		// Структура файла свободных страниц формата 8.3.8 неизвестна, страница остаётся неиспользуемой
+		return;
+	}
+
 	uint32_t j = len >> 10; // length / 1024
 	int32_t i = len & 0x3ff; // length % 1024
 
-- 
2.43.0


From 93bc5be7aecacc947c573f2cda8e99ed7e1a0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 17/97] fix: release each page of a deleted object once, in
 both storage formats

---
 src/tool1cd/Class_1CD.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..f7261f3 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1759,8 +1759,6 @@ bool T_1CD::delete_table(Table* tab)
 //---------------------------------------------------------------------------
 bool T_1CD::delete_object(V8Object* ob)
 {
-	objtab* b;
-
 	if(!ob) return true;
 
 	if(ob->get_block_number() == 1) {
@@ -1773,20 +1771,8 @@ bool T_1CD::delete_object(V8Object* ob)
 			.add_detail("Номер блока объекта", ob->get_block_number());
 	}
 
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		b = (objtab*)get_block(ob->get_block_by_index(i));
-		for(uint32_t j = 0; j < b->numblocks; j++) {
-			set_block_as_free(b->blocks[j]);
-		}
-	}
-
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_by_index(i));
-	}
-
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_number());
-	}
+	ob->set_len(0);
+	set_block_as_free(ob->get_block_number());
 
 	delete ob;
 
-- 
2.43.0


From 2e88056c1078a23e51f8a2d93241bebaeb232272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 18/97] fix: refuse to change any page of a database opened
 read-only

---
 src/tool1cd/Class_1CD.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index f7261f3..b92bf70 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -91,6 +91,11 @@ char*  T_1CD::get_block_for_write(uint32_t block_number, bool read)
 
 
 	if(!fs) return nullptr;
+	if(readonly)
+	{
+		throw DetailedException("Попытка записи в файл в режиме \"Только чтение\"")
+			.add_detail("Индекс блока", to_hex_string(block_number));
+	}
 	if(block_number > length)
 	{
 		throw DetailedException("Попытка получения блока за пределами файла базы.")
-- 
2.43.0


From c5438c0a9956fa63b2c3afb91f28df72d12ba0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 19/97] fix: check the bounds of every ranged read and accept
 ranged operations of zero length

---
 src/tool1cd/V8Object.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 819ed8f..e2c0e20 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -412,6 +412,16 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
+	if(_start + _length > get_len())
+	{
+		throw DetailedException("Попытка чтения данных за пределами объекта")
+			.add_detail("Номер блока объекта", to_hex_string(block))
+			.add_detail("Длина объекта", get_len())
+			.add_detail("Начало читаемых данных", _start)
+			.add_detail("Длина читаемых данных", _length);
+	}
+	if(_length == 0) return (char*)buf;
+
 	if(data) memcpy(buf, data + _start, _length);
 	else
 	{
@@ -672,6 +682,9 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 	if(_start + _length > len) {
 		set_len(_start + _length);
 	}
+	if(_length == 0) {
+		return true;
+	}
 
 	if(type == v8objtype::data80)
 	{
@@ -973,6 +986,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 	delete[] data;
 	data = nullptr;
 	if(_start + _length > len) set_len(_start + _length);
+	if(_length == 0) return true;
 
 	if(type == v8objtype::data80)
 	{
-- 
2.43.0


From bd70afd54cec2638cf53e3df7b43574dc5fdedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 20/97] fix: handle the last page of an object when it is the
 only one of its table page

---
 src/tool1cd/V8Object.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index e2c0e20..bee5580 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -346,11 +346,11 @@ char* V8Object::get_data()
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
 				l -= curlen;
+				if(!l) break;
 				tt += DEFAULT_PAGE_SIZE;
 			}
-			if(l <= curlen) break;
+			if(!l) break;
 		}
 	}
 	else if(type == v8objtype::data838)
@@ -369,11 +369,11 @@ char* V8Object::get_data()
 				{
 					curlen = ll > pagesize ? pagesize : ll;
 					base->get_block(tt, bb->blocks[j], curlen);
-					if(ll <= curlen) break;
 					ll -= curlen;
+					if(!ll) break;
 					tt += pagesize;
 				}
-				if(ll <= curlen) break;
+				if(!ll) break;
 			}
 		}
 		else
@@ -804,12 +804,12 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
@@ -901,12 +901,12 @@ bool V8Object::set_data(TStream* stream)
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				stream->ReadBuffer(tt, curlen);
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
-- 
2.43.0


From 4e3521fce407303f9f0c920c24731fa8c6eb00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 21/97] fix: stop reading a long value whose chain of blocks is
 cyclic

---
 src/tool1cd/Table.cpp    | 16 ++++++++++++++++
 src/tool1cd/V8Object.cpp |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..fb76e48 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -754,8 +754,16 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 
 		_curb = new char[0x100];
 		_curblock = _startblock;
+		uint32_t _visited = 0;
 		while(_curblock)
 		{
+			if(_visited++ >= _numblock)
+			{
+				delete[] _curb;
+				throw DetailedException("Цепочка блоков файла Blob зациклена")
+					.add_detail("Таблица", name)
+					.add_detail("Начальный блок", _startblock);
+			}
 			if(_curblock >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
@@ -827,8 +835,16 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 
 		_curb = new char[0x100];
 		_curblock = _startblock;
+		uint32_t _visited = 0;
 		while(_curblock)
 		{
+			if(_visited++ >= _numblock)
+			{
+				delete[] _curb;
+				throw DetailedException("Цепочка блоков файла Blob зациклена")
+					.add_detail("Таблица", name)
+					.add_detail("Начальный блок", _startblock);
+			}
 			if(_curblock >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index bee5580..e516973 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1467,8 +1467,16 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 
 	_curb = new char[0x100];
 	_curblock = _startblock;
+	uint32_t _visited = 0;
 	while(_curblock)
 	{
+		if(_visited++ >= _numblock)
+		{
+			delete[] _curb;
+			throw DetailedException("Цепочка блоков файла Blob зациклена")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Начальный блок", _startblock);
+		}
 		if(_curblock >= _numblock)
 		{
 			throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
-- 
2.43.0


From 388e9935f6b74609ef6bdda3bccc003ecff268a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 22/97] fix: a long value longer than recorded does not
 overflow the caller's buffer

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index fb76e48..7b43b53 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -862,7 +862,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
-			memcpy(_buf, _curb + 6, _curlen);
+			if(readed < _length) memcpy(_buf, _curb + 6, std::min<uint32_t>(_curlen, _length - readed));
 			_buf += _curlen;
 			readed += _curlen;
 
-- 
2.43.0


From 47030b9508ec033fb133c90bfc476243a8efe0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 23/97] fix: read an empty long value of a table that has no
 file of long values

---
 src/tool1cd/Table.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 7b43b53..d126be8 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -743,6 +743,8 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 			.add_detail("Таблица", name);
 	}
 
+	if(!_startblock) return _str; // пустое значение не хранится в файле Blob
+
 	if(file_blob)
 	{
 		_filelen = file_blob->get_len();
@@ -823,6 +825,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 
 	_buf = (char*)buf;
 	readed = 0;
+	if(!_startblock) return readed; // пустое значение не хранится в файле Blob
 	if(file_blob)
 	{
 		_filelen = file_blob->get_len();
-- 
2.43.0


From e09d4fcf5071597b0185560e32faff87c4806184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 24/97] fix: refuse a database with an impossible page size
 instead of dividing by it

---
 src/tool1cd/Class_1CD.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index b92bf70..249c4a8 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -305,6 +305,11 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		if(pagesize < 0x1000 || pagesize > 0x10000 || (pagesize & (pagesize - 1)))
+		{
+			throw DetailedException("Недопустимая длина страницы")
+				.add_detail("Длина страницы", to_hex_string(pagesize));
+		}
 	}
 	else
 	{
-- 
2.43.0


From a8d0608d14ddf60caa156b018abe944c86a02c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 25/97] fix: count the hidden version field of a table in its
 record layout

---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d126be8..540f2b7 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -298,6 +298,7 @@ void Table::init(int32_t block_descr)
 		fld->set_name("VERSION");
 		fld->set_type_manager(FieldType::Version8());
 		fields.push_back(fld);
+		num_fields++;
 	}
 
 	t = t->get_next();
-- 
2.43.0


From 1f2a5a244a59aacd868ec8e7dae42638cec5215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 26/97] fix: do not cut a multi-byte character when testing the
 end of a name

---
 src/tool1cd/SystemClasses/String.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index a8c8272..d771c21 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -178,7 +178,10 @@ bool EndsWithIC(const std::string &str, const std::string &substr)
 	if (str.size() < substr.size()) {
 		return false;
 	}
-	return CompareIC(str.substr(str.size() - substr.size(), substr.size()), substr) == 0;
+	// регистр приводится до выделения хвоста, чтобы не разрезать символ UTF-8
+	auto lower = LowerCase(str);
+	auto tail = LowerCase(substr);
+	return lower.compare(lower.size() - tail.size(), tail.size(), tail) == 0;
 }
 
 int ToIntDef(const std::string &s, int default_value)
-- 
2.43.0


From 204ee37dc014a16abf1a764c32182eda56a21e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 27/97] fix: do not append zero characters to the text of a
 binary value

---
 src/tool1cd/FieldType.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..0f60d1c 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,17 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
 
 	int32_t m = *(int16_t*)fr; // длина + смещение
+	m = max(0, min(m, length));
+	result.resize(m * 2);
+
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +79,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From 4a9dfe3725ef41ae05f9885286e24a0c92a5ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 28/97] fix: read only the fourteen digits of a stored date

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..81d20e2 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -63,7 +63,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push2(first_byte);
 	}
 	++byte_data;
-	int i = 1;
+	int i = has_sign_flag ? 1 : 2;
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
@@ -210,7 +210,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From 77bc1c59e8f5c965c73c7440ceffdc8438a263ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 29/97] fix: keep the sign of an entered number and drop digits
 beyond its precision

---
 src/tool1cd/BinaryDecimalNumber.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 81d20e2..eae0d92 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -85,14 +85,16 @@ BinaryDecimalNumber::BinaryDecimalNumber(const std::string &presentation, bool h
 	int part_no = 0;
 
 	for (char c : presentation) {
-		if (c == '.') {
+		if (c == '-') {
+			sign = -1;
+		} else if (c == '.') {
 			part_no++;
 		} else {
 			parts[part_no].push_back(c - '0');
 		}
 	}
 
-	if (precision != 0) {
+	if (length != 0 || precision != 0) {
 		parts[FRAC_PART].resize(precision);
 	}
 	int add_length = 0;
-- 
2.43.0


From 250f26869cbe4322c77a9d1477cea45958c3cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 30/97] fix: read an entered binary or identifier value from
 its first character and in the order shown

---
 src/tool1cd/FieldType.cpp | 48 ++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 0f60d1c..d93777e 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -295,6 +295,10 @@ public:
 			bool ignore_showGUID,
 			bool detailed) const override;
 
+	virtual bool get_binary_value(
+			char *buf,
+			const string &value) const override;
+
 	virtual string get_XML_presentation(
 			const char *rec,
 			const Table *parent,
@@ -312,30 +316,47 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 			if(value.size() == 0) {
 				break;
 			}
-			int32_t j = 1;
-			if(length == GUID_BINARY_SIZE && showGUID) // TODO Надо доделать для showGUIDasMS
+			int32_t j = 0;
+			if(length == GUID_BINARY_SIZE && showGUID && showGUIDasMS) {
+				if(value.size() < GUID_LEN) {
+					break;
+				}
+				for(int32_t ind : {3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}) {
+					if(value[j] == '-') {
+						j++;
+					}
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
+				}
+			}
+			else if(length == GUID_BINARY_SIZE && showGUID)
 			{
 				if(value.size() < GUID_LEN) {
 					break;
 				}
 				for(int32_t ind = 12; ind < GUID_BINARY_SIZE; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
 				}
 				j++;
 				for(int32_t ind = 10; ind < 12; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
 				}
 				j++;
 				for(int32_t ind = 8; ind < 10; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
 				}
 				j++;
 				for(int32_t ind = 0; ind < 2; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
 				}
 				j++;
 				for(int32_t ind = 2; ind < 8; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
 				}
 			}
 			else {
@@ -343,7 +364,8 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 					break;
 				}
 				for(int32_t ind = 0; ind < length; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = from_hex_digit(value[j++]) << 4;
+					fr[ind] += from_hex_digit(value[j++]);
 				}
 			}
 			break;
@@ -812,6 +834,16 @@ string GuidFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_t
 	return guid.as_1C();
 }
 
+bool GuidFieldType::get_binary_value(char *binary_value, const string &value) const
+{
+	BinaryGuid guid;
+	if(!value.empty() && !string_to_GUID(value, &guid)) {
+		return false;
+	}
+	memcpy(binary_value, &guid, GUID_BINARY_SIZE);
+	return true;
+}
+
 string GuidFieldType::get_XML_presentation(const char *rec, const Table *parent, bool ignore_showGUID) const
 {
 	return get_presentation(rec, false, 0, true, false);
-- 
2.43.0


From a62815acbe3df8c3274dd2523ff2d84e0e5c7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 31/97] fix: store entered strings in the encoding of the
 database

---
 src/tool1cd/FieldType.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index d93777e..b60cd35 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -651,17 +651,19 @@ bool CommonFieldType::get_binary_value(char *binary_value, const string &value)
 		}
 
 		case type_fields::tf_char: {
-			int32_t i = std::min(value.size(), (size_t)length);
-			memcpy(fr, value.c_str(), i << 1);
+			vector<uint8_t> chars = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(chars.size() / sizeof(WCHART), (size_t)length);
+			memcpy(fr, chars.data(), i << 1);
 			while(i < length) {
 				((WCHART*)fr)[i++] = L' ';
 			}
 			break;
 		}
 		case type_fields::tf_varchar: {
-			int32_t i = std::min(value.size(), (size_t)length);
+			vector<uint8_t> chars = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(chars.size() / sizeof(WCHART), (size_t)length);
 			*(int16_t*)fr = i;
-			memcpy(fr + 2, value.c_str(), i * 2);
+			memcpy(fr + 2, chars.data(), i * 2);
 			while(i < length) {
 				((WCHART*)(fr + 2))[i++] = L' ';
 			}
-- 
2.43.0


From 373dd60c46f808e220c708282610f49e4ddf4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 32/97] fix: make the sort key of a nullable field as long as
 the field and take the value from its place

---
 src/tool1cd/Field.cpp | 31 ++++++++++++++++++++-----------
 src/tool1cd/Index.cpp |  2 +-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6ba11ab..0b85ce4 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -169,20 +169,29 @@ std::string TrimSpacesRight(const std::string &s)
 uint32_t Field::get_sort_key(const char* rec, unsigned char* SortKey, int32_t maxlen) const
 {
 	const char *fr = rec + offset;
-	if (null_exists) {
-		if (*fr == 0) {
-			*(SortKey++) = 0;
-			memcpy(SortKey, (void *)null_index, get_size());
-			return 0;
-		}
-		*(SortKey++) = 1;
-
-		fr++;
-	}
+	const int32_t size = get_size();
+	uint32_t null_mark = 0;
 
 	try {
 
-		return type_manager->get_sort_key(fr, SortKey, maxlen);
+		if (null_exists) {
+			if (size > maxlen) {
+				throw SerializationException("Ошибка получения ключа сортировки поля. Длина буфера меньше необходимой.")
+						.add_detail("Длина буфера", maxlen)
+						.add_detail("Необходимая длина буфера", size);
+			}
+			if (*fr == 0) {
+				*(SortKey++) = 0;
+				memcpy(SortKey, (void *)null_index, size - 1);
+				return size;
+			}
+			*(SortKey++) = 1;
+			null_mark = 1;
+
+			fr++;
+		}
+
+		return null_mark + type_manager->get_sort_key(fr, SortKey, maxlen - null_mark);
 
 	} catch (SerializationException &exception) {
 		exception.add_detail("Таблица", parent->get_name())
diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b29d0a0..f091ded 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -611,7 +611,7 @@ void Index::calcRecordIndex(const TableRecord *rec, char *indexBuf)
 {
 	int32_t index_buf_size = length;
 	for( const auto& record : records) {
-		uint32_t k = record.field->get_sort_key(rec->get_raw(record.field), (unsigned char *)indexBuf, index_buf_size);
+		uint32_t k = record.field->get_sort_key(rec->get_raw(record.field) - record.field->get_offset(), (unsigned char *)indexBuf, index_buf_size);
 		indexBuf += k;
 		index_buf_size -= k;
 	}
-- 
2.43.0


From 25927d6b8c8549efee58b1e20d70d9200c443366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 33/97] fix: compare keys within their bounds when packing an
 index page

---
 src/tool1cd/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index f091ded..7881b6d 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -515,12 +515,12 @@ bool Index::pack_leafpage(char* unpack_index, uint32_t number_indexes, char* pag
 
 		if(i)
 		{
-			for(j = 0; cur[j] == cur[j - step] && j < length; j++);
+			for(j = 0; j < length && cur[j] == *(cur + j - step); j++);
 			left = j;
 		}
 		else left = 0;
 
-		for(j = 1; cur[length - j] == 0 && j <= length; j++);
+		for(j = 1; j <= length && cur[length - j] == 0; j++);
 		right = j - 1;
 
 
-- 
2.43.0


From ffdbb324edbb47a539f85d336ae2555ee20ee716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 34/97] fix: escape every markup character of an exported
 value, not only the first

---
 src/tool1cd/Common.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..9948336 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,18 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	for (char &c : result) {
+		// прочие управляющие символы недопустимы в XML
+		if (static_cast<unsigned char>(c) < ' ' && c != '\t' && c != '\n' && c != '\r') {
+			c = '?';
+		}
+	}
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
+	result = StringReplace(result, "\r", "&#13;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From 573c731e83241b8a0cc6ef298a14f864a6a5622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 35/97] fix: write the year of an exported date with four
 digits

---
 src/tool1cd/FieldType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index b60cd35..7c48200 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -591,8 +591,8 @@ std::string s02(const std::string &s)
 string DatetimeFieldType::get_XML_presentation(const char *rec, const Table *parent, bool ignore_showGUID) const
 {
 	BinaryDecimalDate bdd(rec);
-	string result;
-	result.append(to_string(bdd.get_year()));
+	string result = to_string(bdd.get_year());
+	result.insert(0, 4 - std::min<size_t>(result.size(), 4), '0');
 	result.append("-");
 	result.append(s02(to_string(bdd.get_month())));
 	result.append("-");
-- 
2.43.0


From 4b602004cc593476a404894a299b3de0ea49dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 36/97] fix: take the text of an exported value by its length

---
 src/tool1cd/FieldType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 7c48200..2eccf4e 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -773,7 +773,7 @@ string CommonFieldType::get_XML_presentation(const char *rec, const Table *paren
 			uint32_t *retyped = (uint32_t*)fr;
 			out = new TMemoryStream();
 			parent->readBlob(out, retyped[0], retyped[1]);
-			string s = toXML(string(static_cast<char*>(out->GetMemory()), 0, out->GetSize()));
+			string s = toXML(string(static_cast<char*>(out->GetMemory()), out->GetSize()));
 			delete out;
 			return s;
 		}
-- 
2.43.0


From a507873091217a45ace8308139e9487503c78da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 37/97] fix: break the lines of Base64 text in its own
 character width

---
 src/tool1cd/Base64.cpp | 325 +++++++++++++++++++++--------------------
 1 file changed, 163 insertions(+), 162 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..bd94d7a 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -1,162 +1,163 @@
-/*
-    Tool1CD library provides access to 1CD database files.
-    Copyright © 2009-2017 awa
-    Copyright © 2017-2018 E8 Tools contributors
-
-    This file is part of Tool1CD Library.
-
-    Tool1CD Library is free software: you can redistribute it and/or modify
-    it under the terms of the GNU Lesser General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    Tool1CD Library is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU Lesser General Public License for more details.
-
-    You should have received a copy of the GNU Lesser General Public License
-    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
-*/
-#include "Base64.h"
-
-#if !defined(_WIN32)
-#pragma package(smart_init)
-#endif
-
-// Куски исходного кода взяты с http://base64.sourceforge.net/
-
-// Translation Table as described in RFC1113
-static const char cb64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-
-//// Translation Table to decode (created by author)
-static const char cd64[]="|$$$}rstuvwxyz{$$$$$$$>?@ABCDEFGHIJKLMNOPQRSTUVW$$$$$$XYZ[\\]^_`abcdefghijklmnopq";
-
-// encode
-// base64 encode a stream adding padding and line breaks as per spec.
-// linesize - длина строки. Если linesize = 0, выводится всё в одну строку, без переносов
-void base64_encode(TStream* infile, TStream* outfile, int linesize)
-{
-	unsigned char in[3];
-	WCHART out[4];
-	int64_t i;
-	//int len, blocksout = 0;
-	int blocksout = 0;
-	int64_t len;
-	int64_t inlenblock = infile->GetSize() / 3;
-
-	infile->Seek(0, soBeginning);
-	for(i = 0; i < inlenblock; i++)
-	{
-		if(blocksout >= linesize/4 && linesize)
-		{
-			outfile->Write(L"\r\n", 4);
-			blocksout = 0;
-		}
-		blocksout++;
-		infile->Read(in, 3);
-		out[0] = cb64[in[0] >> 2];
-		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
-		out[2] = cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)];
-		out[3] = cb64[in[2] & 0x3f];
-		outfile->Write(out, 8);
-	}
-
-	len = infile->GetSize() - infile->GetPosition();
-	if(len > 0)
-	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
-		in[1] = 0;
-		in[2] = 0;
-		infile->Read(in, len);
-		out[0] = cb64[in[0] >> 2];
-		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
-		out[2] = len > 1 ? cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)] : L'=';
-		out[3] = len > 2 ? cb64[in[2] & 0x3f] : L'=';
-		outfile->Write(out, 8);
-	}
-
-}
-
-
-// decode
-// decode a base64 encoded stream discarding padding, line breaks and noise
-void base64_decode(TStream* infile, TStream* outfile)
-{
-	unsigned char in[4], out[3], v;
-	WCHART s;
-	int i, len;
-
-	while(infile->GetPosition() < infile->GetSize())
-	{
-		for(len = 0, i = 0; i < 4 && infile->GetPosition() < infile->GetSize(); i++ )
-		{
-			v = 0;
-			while(infile->GetPosition() < infile->GetSize() && v == 0)
-			{
-				infile->Read(&s, 2);
-				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
-				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
-			}
-			if(v)
-			{
-				in[i] = (unsigned char)(v - 1);
-				len++;
-			}
-			else in[i] = 0;
-		}
-		if(len)
-		{
-			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
-			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
-			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
-			outfile->Write(out, len - 1);
-		}
-
-	}
-
-}
-
-// decode
-// decode a base64 encoded stream discarding padding, line breaks and noise
-void base64_decode(const std::string &instr, TStream *outfile, int start)
-{
-	unsigned char in[4], out[3], v;
-	char s;
-	const char* str;
-	int i, len, is, slen;
-
-	slen = instr.size();
-	str = instr.c_str();
-	is = start;
-
-	while(is < slen)
-	{
-		for(len = 0, i = 0; i < 4 && is < slen; i++ )
-		{
-			v = 0;
-			while(is < slen && v == 0)
-			{
-				s = str[is++];
-				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
-				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
-			}
-			if(v)
-			{
-				in[i] = (unsigned char)(v - 1);
-				len++;
-			}
-			else in[i] = 0;
-		}
-		if(len)
-		{
-			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
-			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
-			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
-			outfile->Write(out, len - 1);
-		}
-
-	}
-
-}
-
+/*
+    Tool1CD library provides access to 1CD database files.
+    Copyright © 2009-2017 awa
+    Copyright © 2017-2018 E8 Tools contributors
+
+    This file is part of Tool1CD Library.
+
+    Tool1CD Library is free software: you can redistribute it and/or modify
+    it under the terms of the GNU Lesser General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    Tool1CD Library is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU Lesser General Public License for more details.
+
+    You should have received a copy of the GNU Lesser General Public License
+    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
+*/
+#include "Base64.h"
+
+#if !defined(_WIN32)
+#pragma package(smart_init)
+#endif
+
+// Куски исходного кода взяты с http://base64.sourceforge.net/
+
+// Translation Table as described in RFC1113
+static const char cb64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
+
+//// Translation Table to decode (created by author)
+static const char cd64[]="|$$$}rstuvwxyz{$$$$$$$>?@ABCDEFGHIJKLMNOPQRSTUVW$$$$$$XYZ[\\]^_`abcdefghijklmnopq";
+
+// encode
+// base64 encode a stream adding padding and line breaks as per spec.
+// linesize - длина строки. Если linesize = 0, выводится всё в одну строку, без переносов
+void base64_encode(TStream* infile, TStream* outfile, int linesize)
+{
+	unsigned char in[3];
+	WCHART out[4];
+	int64_t i;
+	//int len, blocksout = 0;
+	int blocksout = 0;
+	int64_t len;
+	const WCHART linebreak[2] = {'\r', '\n'};
+	int64_t inlenblock = infile->GetSize() / 3;
+
+	infile->Seek(0, soBeginning);
+	for(i = 0; i < inlenblock; i++)
+	{
+		if(blocksout >= linesize/4 && linesize)
+		{
+			outfile->Write(linebreak, sizeof(linebreak));
+			blocksout = 0;
+		}
+		blocksout++;
+		infile->Read(in, 3);
+		out[0] = cb64[in[0] >> 2];
+		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
+		out[2] = cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)];
+		out[3] = cb64[in[2] & 0x3f];
+		outfile->Write(out, 8);
+	}
+
+	len = infile->GetSize() - infile->GetPosition();
+	if(len > 0)
+	{
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(linebreak, sizeof(linebreak));
+		in[1] = 0;
+		in[2] = 0;
+		infile->Read(in, len);
+		out[0] = cb64[in[0] >> 2];
+		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
+		out[2] = len > 1 ? cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)] : L'=';
+		out[3] = len > 2 ? cb64[in[2] & 0x3f] : L'=';
+		outfile->Write(out, 8);
+	}
+
+}
+
+
+// decode
+// decode a base64 encoded stream discarding padding, line breaks and noise
+void base64_decode(TStream* infile, TStream* outfile)
+{
+	unsigned char in[4], out[3], v;
+	WCHART s;
+	int i, len;
+
+	while(infile->GetPosition() < infile->GetSize())
+	{
+		for(len = 0, i = 0; i < 4 && infile->GetPosition() < infile->GetSize(); i++ )
+		{
+			v = 0;
+			while(infile->GetPosition() < infile->GetSize() && v == 0)
+			{
+				infile->Read(&s, 2);
+				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
+				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
+			}
+			if(v)
+			{
+				in[i] = (unsigned char)(v - 1);
+				len++;
+			}
+			else in[i] = 0;
+		}
+		if(len)
+		{
+			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
+			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
+			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
+			outfile->Write(out, len - 1);
+		}
+
+	}
+
+}
+
+// decode
+// decode a base64 encoded stream discarding padding, line breaks and noise
+void base64_decode(const std::string &instr, TStream *outfile, int start)
+{
+	unsigned char in[4], out[3], v;
+	char s;
+	const char* str;
+	int i, len, is, slen;
+
+	slen = instr.size();
+	str = instr.c_str();
+	is = start;
+
+	while(is < slen)
+	{
+		for(len = 0, i = 0; i < 4 && is < slen; i++ )
+		{
+			v = 0;
+			while(is < slen && v == 0)
+			{
+				s = str[is++];
+				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
+				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
+			}
+			if(v)
+			{
+				in[i] = (unsigned char)(v - 1);
+				len++;
+			}
+			else in[i] = 0;
+		}
+		if(len)
+		{
+			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
+			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
+			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
+			outfile->Write(out, len - 1);
+		}
+
+	}
+
+}
+
-- 
2.43.0


From 93d2c47a2f5d04c211ac1e3a07dde96601e498d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 38/97] fix: count the image fields of an exported table from
 zero

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 540f2b7..1e26429 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -934,7 +934,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		curindex= *primary;
 	}
 
-	int image_count; // количество полей с типом image
+	int image_count = 0; // количество полей с типом image
 	for (auto field : fields) {
 		f.WriteString(fpart1);
 		f.WriteString(field->get_name());
-- 
2.43.0


From 36a3904e88cdd111b5d8561a7d9f5689f02c6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 39/97] fix: name the files of a record whose key has a null
 field

---
 src/tool1cd/Table.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 1e26429..283983b 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2405,6 +2405,9 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 				s += "_";
 			}
 			Field* tmp_field = record.field;
+			if (rec->is_null_value(tmp_field)) {
+				continue;
+			}
 			std::string tmp_str = rec->get_string(tmp_field);
 
 			s += tmp_str;
-- 
2.43.0


From 7b30b4746471018ae5630d9bb78bfb3c54806e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 40/97] fix: export the records of a table without a primary
 index

---
 src/ctool1cd/App.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2dde0f7..204fd08 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -81,9 +81,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 	for (int j = 0; j < base1CD->get_numtables(); j++) {
 		tbl = base1CD->get_table(j);
 
-		if (!tbl->get_num_indexes()) {
-			tbl->fill_records_index();
-		}
+		tbl->fill_records_index();
 
 		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
 
-- 
2.43.0


From 65292033e85dc8a358db1155df04973d57eca74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 41/97] fix: do not export a removed record that is still
 listed by the index

---
 src/tool1cd/Table.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 283983b..f5d735c 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -971,10 +971,13 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 			msreg_g.Status(status + to_string(j));
 		}
 
-		f.Write(rpart1.c_str(), rpart1.size());
 		if(curindex) nr = curindex->get_numrec(j);
 		else nr = recordsindex[j];
 		std::shared_ptr<TableRecord> rec (get_record(nr));
+		if (rec->is_removed()) {
+			continue;
+		}
+		f.Write(rpart1.c_str(), rpart1.size());
 		if (image_count) {
 			std::string filename = get_file_name_for_record(rec.get());
 			if (EqualIC(filename, recname)) {
-- 
2.43.0


From aba20c3d875c7789bd4a820b5941c43b2af3a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 42/97] fix: export every long value of a table to a file of
 its own

---
 src/tool1cd/Table.cpp | 44 +++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index f5d735c..1555245 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,6 +19,8 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <cstring>
+#include <set>
 #include <string>
 #include <boost/filesystem.hpp>
 
@@ -892,6 +894,26 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	return readed;
 }
 
+//---------------------------------------------------------------------------
+// имя файла, допустимое в файловой системе и отличное от всех уже использованных
+static string unique_file_name(const string &wanted, std::set<string> &used)
+{
+	string file_name = wanted;
+	for (char &c : file_name) {
+		if (static_cast<unsigned char>(c) < ' ' || strchr("\"*/:<>?\\|", c)) {
+			c = '_';
+		}
+	}
+	if (file_name == "." || file_name == "..") {
+		file_name += "_";
+	}
+	string result = file_name;
+	for (int n = 2; !used.insert(LowerCase(result)).second; n++) {
+		result = file_name + "_" + to_string(n);
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool unpack) const
 {
@@ -899,7 +921,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	uint32_t j, numr, nr;
 	bool canwriteblob = false;
 	Index* curindex = nullptr;
-	int32_t repeat_count; // количество повторов имени записи подряд (для случая, если индекс не уникальный)
+	std::set<string> blob_names; // имена уже выгруженных файлов (для случая, если индекс не уникальный)
 
 	char UnicodeHeader[3] = {'\xef', '\xbb', '\xbf'}; // BOM UTF-8
 	string part1 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"";
@@ -961,7 +983,6 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	msreg_g.Status(status);
 
 	recname = "";
-	repeat_count = 0;
 	bool dircreated = false;
 	boost::filesystem::path dir(_filename + ".blob");
 
@@ -979,13 +1000,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		}
 		f.Write(rpart1.c_str(), rpart1.size());
 		if (image_count) {
-			std::string filename = get_file_name_for_record(rec.get());
-			if (EqualIC(filename, recname)) {
-				repeat_count++;
-			} else {
-				recname = filename;
-				repeat_count = 0;
-			}
+			recname = get_file_name_for_record(rec.get());
 		}
 		for (auto field : fields) {
 			string outputvalue;
@@ -1024,17 +1039,14 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						}
 						outputvalue += field->get_name();
 					}
-					if(repeat_count)
-					{
-						outputvalue += "_";
-						outputvalue += repeat_count + 1;
-					}
+					outputvalue = unique_file_name(outputvalue.empty() ? field->get_name() : outputvalue, blob_names);
 
-					dir /= outputvalue;
-					if(!field->save_blob_to_file(rec.get(), dir.string(), unpack)) {
+					boost::filesystem::path blob_path = dir / outputvalue;
+					if(!field->save_blob_to_file(rec.get(), blob_path.string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
 					}
+					outputvalue = toXML(outputvalue);
 				}
 				else outputvalue = "{ERROR}";
 			}
-- 
2.43.0


From 9adbfc2471559a6c3b28e9ef0921eaa62108bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 43/97] fix: take the characters of a table name filter
 literally

---
 src/ctool1cd/App.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 204fd08..0f6c556 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -68,6 +68,19 @@ bool App::IsTrueString(const string &str) const
 			Equal(s, "да");
 }
 
+// все символы списка имён, кроме * и ?, обозначают сами себя
+static string literal_pattern(const string &filter)
+{
+	string result;
+	for (char c : filter) {
+		if (string("[](){}.+^$|\\").find(c) != string::npos) {
+			result += '\\';
+		}
+		result += c;
+	}
+	return result;
+}
+
 // export_all_to_xml
 void App::export_all_to_xml(const ParsedCommand &pc)
 {
@@ -104,7 +117,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		return;
 	}
 
-	string filter(pc.param2);
+	string filter = literal_pattern(pc.param2);
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
 	filter = StringReplace(filter, "?", ".", rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
@@ -167,7 +180,7 @@ void App::export_to_binary(const ParsedCommand &pc)
 		return;
 	}
 
-	string filter(pc.param2);
+	string filter = literal_pattern(pc.param2);
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
 	filter = StringReplace(filter, "?", ".", rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
@@ -230,7 +243,7 @@ void App::import_from_binary(const ParsedCommand &pc)
 		return;
 	}
 
-	string filter(pc.param2);
+	string filter = literal_pattern(pc.param2);
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
 	filter = StringReplace(filter, "?", ".", rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
-- 
2.43.0


From 5ee8f8661eab007626af7fd509045c0a2229dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 44/97] fix: refuse every position outside a stream and keep
 the current one then

---
 src/tool1cd/SystemClasses/TStream.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 8ff1c5a..161206c 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -52,25 +52,24 @@ int64_t TStream::GetPosition() const
 
 void TStream::SetPosition(int64_t NewPosition)
 {
-	m_position = NewPosition;
+	Seek(NewPosition, soFromBeginning);
 }
 
 int64_t TStream::Seek(const int64_t offset, const TSeekOrigin Origin)
 {
 	if (Origin == soFromBeginning) {
 
-		if (offset > GetSize()) {
+		if (offset < 0 || offset > GetSize()) {
 			throw Exception("Wrong offset");
 		}
 		m_position = offset;
 
 	} else if (Origin == soFromEnd) {
 
-		m_position = GetSize() - offset;
-
-		if (GetSize() < offset) {
+		if (offset < 0 || GetSize() < offset) {
 			throw Exception("Wrong offset");
 		}
+		m_position = GetSize() - offset;
 
 	} else {
 
-- 
2.43.0


From 2e7f4269071b1a383e0c026d0091085a3a8692bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 45/97] fix: copy nothing from a stream that is at its end

---
 src/tool1cd/SystemClasses/TStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 161206c..d42ef63 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -108,7 +108,7 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 	}
 	std::vector<uint8_t> _data;
 	auto resultCount = Source->Read(_data, Count);
-	return Write(_data, resultCount);
+	return Write(_data.data(), resultCount);
 }
 
 int64_t TStream::WriteBuffer(const void *Buffer, const int64_t Count)
-- 
2.43.0


From 37886286693952020f4733c33da0de89056d9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 46/97] fix: setting the size of a file stream truncates or
 extends the file

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 11 +++++++++++
 src/tool1cd/SystemClasses/TFileStream.hpp |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index b492052..457fb97 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -82,6 +82,17 @@ void TFileStream::Close()
 	}
 }
 
+void TFileStream::SetSize(int64_t NewSize)
+{
+	Reopen();
+	_stream->flush();
+	boost::filesystem::resize_file(boost::filesystem::path(filename), NewSize);
+	m_size = NewSize;
+	if (m_position > m_size) {
+		m_position = m_size;
+	}
+}
+
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
 {
 	Reopen();
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index d018f3f..4d960c7 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -52,6 +52,7 @@ public:
 
 	virtual void Close() override;
 	virtual void Reopen();
+	virtual void SetSize(int64_t NewSize) override;
 	virtual int64_t Read(void *Buffer, int64_t Count) override;
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
 
-- 
2.43.0


From 642dd1d0dbb7cc3b65e978e0704ca2db992f095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 47/97] fix: report a compressed stream that ends too early

---
 src/tool1cd/UZLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 470b402..eae63c7 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -158,9 +158,14 @@ void ZInflateStream(TStream* src, TStream* dst)
 		/* done when inflate() says it's done */
 	} while (ret != Z_STREAM_END);
 
+	bool truncated = ret != Z_STREAM_END && strm.total_in != 0;
+
 	/* clean up and return */
 	(void)inflateEnd(&strm);
 
+	if (truncated) {
+		throw ZError( "Unexpected end of compressed data" );
+	}
 }
 
 
-- 
2.43.0


From 92a96013fffaf0321ed36e060dd435083df348a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 48/97] fix: pass through unpacked data without remains of an
 attempt to unpack it

---
 src/tool1cd/TableRecord.cpp |  6 +-----
 src/tool1cd/UZLib.cpp       | 11 ++++++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..839e42c 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -185,11 +185,7 @@ bool TableRecord::try_store_blob_data(const Field *field, TStream *&out, bool in
 		TMemoryStream in;
 		table->readBlob(&in, b.blob_start, b.blob_length);
 		in.Seek(0, soFromBeginning);
-		try {
-			ZInflateStream(&in, out);
-		} catch (ZError) {
-			out->CopyFrom(&in, 0);
-		}
+		ZInflateOrCopy(&in, out);
 	}
 	else {
 		table->readBlob(out, b.blob_start, b.blob_length);
diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index eae63c7..1b50b4c 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -171,11 +171,20 @@ void ZInflateStream(TStream* src, TStream* dst)
 
 void ZInflateOrCopy(TStream *src, TStream *dst)
 {
+	int64_t src_position = src->GetPosition();
+	int64_t dst_position = dst->GetPosition();
+
 	try {
 
 		ZInflateStream(src, dst);
 
 	} catch (ZError &) {
-		dst->CopyFrom(src, 0);
+		// частично распакованные данные не нужны
+		dst->SetSize(dst_position);
+		dst->Seek(dst_position, soFromBeginning);
+		src->Seek(src_position, soFromBeginning);
+		if (src->GetSize() > src_position) {
+			dst->CopyFrom(src, src->GetSize() - src_position);
+		}
 	}
 }
-- 
2.43.0


From 6b075396182561ea2c8e7974f07cf09ab64e7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 49/97] fix: give every process a directory of its own for
 temporary files

---
 src/tool1cd/TempStream.cpp | 167 ++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 84 deletions(-)

diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d9bd472..d4f7f2b 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -1,86 +1,85 @@
-/*
-    Tool1CD library provides access to 1CD database files.
-    Copyright © 2009-2017 awa
-    Copyright © 2017-2018 E8 Tools contributors
-
-    This file is part of Tool1CD Library.
-
-    Tool1CD Library is free software: you can redistribute it and/or modify
-    it under the terms of the GNU Lesser General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    Tool1CD Library is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU Lesser General Public License for more details.
-
-    You should have received a copy of the GNU Lesser General Public License
-    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
-*/
-#include "TempStream.h"
-#include <boost/filesystem.hpp>
-//---------------------------------------------------------------------------
-#if !defined(_WIN32)
-#pragma package(smart_init)
-#endif
-
-using namespace std;
-
-boost::filesystem::path TTempStream::tempcat;
-bool TTempStream::cleanup = true;
-TTempStreamStaticInit TempStreamStaticInit;
-
-static void DelayedInitTempPath()
-{
-	TTempStream::tempcat = boost::filesystem::temp_directory_path() / "t1cd";
-	if (boost::filesystem::exists(TTempStream::tempcat)) {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
-	boost::filesystem::create_directory(TTempStream::tempcat);
-}
-
-//---------------------------------------------------------------------------
-TTempStreamStaticInit::TTempStreamStaticInit()
-{
-	if (!TTempStream::tempcat.empty()) {
-		return;
-	}
-}
-
-//---------------------------------------------------------------------------
-TTempStreamStaticInit::~TTempStreamStaticInit()
-{
-	if (!TTempStream::cleanup) {
-		return;
+/*
+    Tool1CD library provides access to 1CD database files.
+    Copyright © 2009-2017 awa
+    Copyright © 2017-2018 E8 Tools contributors
+
+    This file is part of Tool1CD Library.
+
+    Tool1CD Library is free software: you can redistribute it and/or modify
+    it under the terms of the GNU Lesser General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    Tool1CD Library is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU Lesser General Public License for more details.
+
+    You should have received a copy of the GNU Lesser General Public License
+    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
+*/
+#include "TempStream.h"
+#include <boost/filesystem.hpp>
+//---------------------------------------------------------------------------
+#if !defined(_WIN32)
+#pragma package(smart_init)
+#endif
+
+using namespace std;
+
+boost::filesystem::path TTempStream::tempcat;
+bool TTempStream::cleanup = true;
+TTempStreamStaticInit TempStreamStaticInit;
+
+static void DelayedInitTempPath()
+{
+	// у каждого процесса свой каталог: одновременно могут работать несколько
+	do {
+		TTempStream::tempcat = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%");
+	} while (!boost::filesystem::create_directory(TTempStream::tempcat));
+}
+
+//---------------------------------------------------------------------------
+TTempStreamStaticInit::TTempStreamStaticInit()
+{
+	if (!TTempStream::tempcat.empty()) {
+		return;
 	}
-	try {
+}
+
+//---------------------------------------------------------------------------
+TTempStreamStaticInit::~TTempStreamStaticInit()
+{
+	if (!TTempStream::cleanup || TTempStream::tempcat.empty()) {
+		return;
+	}
+	try {
 		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
-	catch (...) {
-
-	}
-}
-
-//---------------------------------------------------------------------------
-TTempStream::TTempStream() : TFileStream(get_temp_name(), fmCreate)
-{
-}
-
-//---------------------------------------------------------------------------
-TTempStream::~TTempStream()
-{
-}
-
-//---------------------------------------------------------------------------
-
-std::string TTempStream::get_temp_name()
-{
-	if (tempcat.empty()) {
-		DelayedInitTempPath();
-	}
-	return (tempcat / boost::filesystem::unique_path()).string();
-}
-
-//---------------------------------------------------------------------------
-
+	}
+	catch (...) {
+
+	}
+}
+
+//---------------------------------------------------------------------------
+TTempStream::TTempStream() : TFileStream(get_temp_name(), fmCreate)
+{
+}
+
+//---------------------------------------------------------------------------
+TTempStream::~TTempStream()
+{
+}
+
+//---------------------------------------------------------------------------
+
+std::string TTempStream::get_temp_name()
+{
+	if (tempcat.empty()) {
+		DelayedInitTempPath();
+	}
+	return (tempcat / boost::filesystem::unique_path()).string();
+}
+
+//---------------------------------------------------------------------------
+
-- 
2.43.0


From 2e961919c3e760840941e0b4f7752fce60267eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 50/97] fix: TEncoding::Convert converts exactly the requested
 range

---
 src/tool1cd/SystemClasses/System.SysUtils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.SysUtils.cpp b/src/tool1cd/SystemClasses/System.SysUtils.cpp
index 7476e6e..f0bea22 100644
--- a/src/tool1cd/SystemClasses/System.SysUtils.cpp
+++ b/src/tool1cd/SystemClasses/System.SysUtils.cpp
@@ -20,6 +20,7 @@
 */
 #include "System.SysUtils.hpp"
 #include <boost/filesystem.hpp>
+#include <stdexcept>
 #include <string>
 #include "utf8.h"
 
@@ -144,8 +145,12 @@ int TEncoding::GetBufferEncoding(const std::vector<uint8_t> &Buffer, TEncoding*
 
 std::vector<uint8_t> TEncoding::Convert(TEncoding * const Source, TEncoding * const Destination, const std::vector<uint8_t> &Bytes, int StartIndex, int Count)
 {
-	// TODO: Исправить работу TEncoding::Convert
-	auto data = Source->toUtf8(Bytes, StartIndex); // TODO: StartIndex, Count
+	if (StartIndex < 0 || Count < 0 || static_cast<size_t>(StartIndex) > Bytes.size()
+			|| static_cast<size_t>(Count) > Bytes.size() - StartIndex) {
+		throw std::out_of_range("TEncoding::Convert");
+	}
+	std::vector<uint8_t> part(Bytes.begin() + StartIndex, Bytes.begin() + StartIndex + Count);
+	auto data = Source->toUtf8(part);
 	std::vector<uint8_t> Result = Destination->fromUtf8(data);
 	return Result;
 }
-- 
2.43.0


From 868d7fc519e369a5bc16d27739d0ae4b2cef05d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 51/97] fix: changing the case of a text keeps what follows a
 zero character

---
 src/tool1cd/SystemClasses/String.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index d771c21..d43cba0 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -127,9 +127,7 @@ std::string LowerCase(const std::string &src)
 	while (it != eit) {
 		rit = utf8::append(__to_lower(*it++), rit);
 	}
-	result_data.back() = '\0';
-
-	return result_data.data();
+	return std::string(result_data.data(), rit);
 }
 
 std::string UpperCase(const std::string &src)
@@ -145,9 +143,7 @@ std::string UpperCase(const std::string &src)
 	while (it != eit) {
 		rit = utf8::append(__to_upper(*it++), rit);
 	}
-	result_data.back() = '\0';
-
-	return string(result_data.data());
+	return string(result_data.data(), rit);
 }
 
 int Compare(const std::string &a, const std::string &b)
-- 
2.43.0


From f43d5360faf33fb1525c923963ff997b3d18c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 52/97] fix: text that is not an identifier is refused with an
 error that can be handled

---
 src/tool1cd/BinaryGuid.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/BinaryGuid.cpp b/src/tool1cd/BinaryGuid.cpp
index 59ae49a..bf46bad 100644
--- a/src/tool1cd/BinaryGuid.cpp
+++ b/src/tool1cd/BinaryGuid.cpp
@@ -74,7 +74,7 @@ bool BinaryGuid::is_empty() const
 	return true;
 }
 
-class WrongGuidPresentation : DetailedException {
+class WrongGuidPresentation : public DetailedException {
 public:
 	WrongGuidPresentation(const std::string &presentation)
 		: DetailedException("Переданный параметр не может быть распознан как GUID")
@@ -83,6 +83,24 @@ public:
 	}
 };
 
+// Шестнадцатеричные цифры на всех местах, кроме разделителей
+static bool is_guid_presentation(const std::string &presentation)
+{
+	const bool flat = presentation.size() == GUID_LEN_FLAT;
+	if (!flat && presentation.size() != GUID_LEN) {
+		return false;
+	}
+	for (size_t i = 0; i < presentation.size(); i++) {
+		const bool dash = !flat && (i == 8 || i == 13 || i == 18 || i == 23);
+		const char c = presentation[i];
+		const bool hex = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+		if (dash ? c != '-' : !hex) {
+			return false;
+		}
+	}
+	return true;
+}
+
 int get_subbyte(const std::string &presentation, int start)
 {
 	return from_hex_digit(presentation[start]) << 4
@@ -91,6 +109,9 @@ int get_subbyte(const std::string &presentation, int start)
 
 BinaryGuid::BinaryGuid(const std::string &presentation)
 {
+	if (!is_guid_presentation(presentation)) {
+		throw WrongGuidPresentation(presentation);
+	}
 	if (presentation.size() == GUID_LEN_FLAT) {
 		for (int i = 0; i < GUID_BINARY_SIZE; i++) {
 			data[i] = get_subbyte(presentation, i * 2);
@@ -98,9 +119,6 @@ BinaryGuid::BinaryGuid(const std::string &presentation)
 		return;
 	}
 
-	if (presentation.size() != GUID_LEN) {
-		throw WrongGuidPresentation(presentation);
-	}
 	int j = 0;
 	for (int ind = 12; ind < 16; ind++) {
 		data[ind] = get_subbyte(presentation, j);
@@ -136,7 +154,7 @@ bool string_to_GUID(const std::string &str, BinaryGuid *guid)
 		BinaryGuid bguid(str);
 		*guid = bguid;
 
-	} catch (WrongGuidPresentation) {
+	} catch (WrongGuidPresentation &) {
 		return false;
 	}
 	return true;
-- 
2.43.0


From b0a4a0d17cca7422f0b5a077d0caba62a5495e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 53/97] fix: file times are converted in the right unit, for
 any time zone and any date

---
 src/tool1cd/SystemClasses/System.cpp | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 0653fa8..1c64ac3 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -20,6 +20,10 @@
 */
 #include "System.hpp"
 
+#ifdef _WIN32
+#define timegm _mkgmtime
+#endif
+
 namespace System {
 
 //---------------------------------------------------------------------------
@@ -42,18 +46,16 @@ uint64_t UInt32x32To64(int64_t a, int64_t b)
 uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 {
 	// takes the last modified date
-	LARGE_INTEGER date, adjust;
-	date.HighPart = pft -> dwHighDateTime;
-	date.LowPart  = pft -> dwLowDateTime;
+	int64_t date = static_cast<int64_t>(static_cast<uint64_t>(pft->dwHighDateTime) << 32 | pft->dwLowDateTime);
 
-	// 100-nanoseconds = milliseconds * 10000
-	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000;
+	// converts from 100-nanoseconds to whole seconds
+	int64_t seconds = date / WINDOWS_TICK;
+	if (date % WINDOWS_TICK < 0) {
+		--seconds;
+	}
 
 	// removes the diff between 1970 and 1601
-	date.QuadPart -= adjust.QuadPart;
-
-	// converts back from 100-nanoseconds to seconds
-	return date.QuadPart / 10000000;
+	return static_cast<uint64_t>(seconds - static_cast<int64_t>(SEC_TO_UNIX_EPOCH));
 }
 
 //---------------------------------------------------------------------------
@@ -61,7 +63,7 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 void UnixTimeToFileTime(time_t t, System::FILETIME * pft)
 {
 
-	uint64_t ll = UInt32x32To64(t, 10000000) + SEC_TO_UNIX_EPOCH;
+	uint64_t ll = (static_cast<int64_t>(t) + SEC_TO_UNIX_EPOCH) * WINDOWS_TICK;
 
 	pft->dwLowDateTime = (uint32_t)ll;
 	pft->dwHighDateTime = ll >> 32;
@@ -83,7 +85,7 @@ bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpF
 	ttm.tm_wday  = 0; // возможно здесь что-то не то, надо проверять; days since Sunday - [0, 6] 
 	ttm.tm_yday  = 0; // возможно здесь что-то не то, надо проверять; days since January 1 - [0, 365]
 	
-	UnixTime = mktime(&ttm);
+	UnixTime = timegm(&ttm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -95,6 +97,7 @@ bool LocalFileTimeToFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	// TODO: реализовать кроссплатформенное преобразование локального системного файлового времени в универсальное (UTC) файловое время
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm *ptm  = gmtime(&rawtime);
+	ptm->tm_isdst = -1;
 	time_t UnixTime = mktime(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 	
@@ -107,7 +110,7 @@ bool FileTimeToLocalFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm * ptm = localtime(&rawtime);
-	time_t UnixTime = mktime(ptm);
+	time_t UnixTime = timegm(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -118,7 +121,7 @@ void GetSystemTime(System::SYSTEMTIME * lpSystemTime)
 {
 	
 	time_t CurrTime = time(NULL);
-	tm *ttm = localtime(&CurrTime);
+	tm *ttm = gmtime(&CurrTime);
 
 	lpSystemTime->wYear   = ttm->tm_year + 1900;
 	lpSystemTime->wMonth  = ttm->tm_mon + 1;
-- 
2.43.0


From 026291105941fcfd67de50f9668f67230b073818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 54/97] fix: quotes at the end of an argument are removed
 without looping forever

---
 src/ctool1cd/ParseCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 7b5429b..b287c5b 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -165,8 +165,8 @@ std::string dequote(const std::string &str)
 	if (result.front() == '\"' && result.back() == '\"') {
 		result = result.substr(1, result.size() - 2);
 	}
-	while (result.back() == '\"') {
-		result = result.substr(0, str.size() - 1);
+	while (!result.empty() && result.back() == '\"') {
+		result.pop_back();
 	}
 	return result;
 }
-- 
2.43.0


From db0f458efce4c51ff14f9292892c81d65a27777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 55/97] fix: an option without its parameters is not executed

---
 src/ctool1cd/ParseCommandLine.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index b287c5b..035213c 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -197,6 +197,7 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 				commands[n].param1 = "";
 				commands[n].param2 = "";
 				commands[n].param3 = "";
+				bool complete = true;
 				int l;
 				for(l = 0; l < definitions[j].num_add_par; l++)
 				{
@@ -220,12 +221,14 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 					}
 					else
 					{
-						// TODO: Ошибка! Недостаточно параметров ключа!
+						complete = false;
 						msreg_g.AddMessage("Недостаточно параметров ключа командной строки.", MessageState::Error)
 							.with("Ключ", param);
 					}
 				}
-				if (!definitions[j].predefine_par.empty()) {
+				if (!complete) {
+					commands.pop_back();
+				} else if (!definitions[j].predefine_par.empty()) {
 					switch(l)
 					{
 						case 0:
-- 
2.43.0


From 085166c2f735c852fa6443e9dae67127a4107bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 56/97] fix: a number that is too large counts as not a number
 instead of ending the program

---
 src/tool1cd/SystemClasses/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index d43cba0..c956f44 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -186,6 +186,8 @@ int ToIntDef(const std::string &s, int default_value)
 		return stoi(s);
 	} catch (const invalid_argument &) {
 		return default_value;
+	} catch (const out_of_range &) {
+		return default_value;
 	}
 }
 
-- 
2.43.0


From 0361f7f404cc3e3b88fa5d1174d18c057f9af4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 57/97] fix: errors are shown in the exit code, and the option
 to suppress console output works

---
 src/tool1cd/Messenger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b104b9b..1a62ef8 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -44,9 +44,15 @@ void Messenger::Status(const string &message)
 //---------------------------------------------------------------------------
 void Messenger::AddDetailedMessage(const string &message, const MessageState mstate, const TStringList *param)
 {
+	if (mstate == MessageState::Error) {
+		has_error = true;
+	}
 	if (mstate < minimal_state) {
 		return;
 	}
+	if (noverbose && logfile.empty()) {
+		return;
+	}
 
 	shared_ptr<ostream> output (&cerr, [](...){} );
 
-- 
2.43.0


From 7e2abac5e410be7b21a8c0327a42eed25f4a1533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 58/97] fix: a file that is not a database is reported instead
 of ending the program abnormally

---
 src/ctool1cd/App.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 0f6c556..99c4ea8 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -606,7 +606,12 @@ int App::Run()
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
 
-	base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	try {
+		base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	} catch (DetailedException &ex) {
+		ex.show();
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
 
 	if (base1CD->is_open()) {
 		msreg_g.AddMessage ("База данных 1CD открыта", MessageState::Succesfull)
-- 
2.43.0


From cff63e0763cbd0c9b7cd838a780908071e9e67bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 59/97] fix: paths of configuration storages are resolved at
 every depth

---
 src/tool1cd/ConfigStorage.cpp | 100 ++++++++++++++++------------------
 1 file changed, 48 insertions(+), 52 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 81a66d8..7e6db70 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -40,6 +40,24 @@ extern Registrator msreg_g;
 
 std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt);
 
+// Поиск файла по пути во вложенных каталогах. Если файла нет, возвращается nullptr
+static V8File* nested_file(V8Catalog *cat, string fname)
+{
+	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
+	{
+		V8File *f = cat->get_file(fname.substr(0, i));
+		if (!f) {
+			return nullptr;
+		}
+		cat = f->get_catalog();
+		if (!cat) {
+			return nullptr;
+		}
+		fname = fname.substr(i + 1);
+	}
+	return cat->get_file(fname);
+}
+
 //********************************************************
 // Класс ConfigStorageDirectory
 
@@ -56,7 +74,7 @@ ConfigFile* ConfigStorageDirectory::readfile(const std::string &path)
 
 	boost::filesystem::path filename = fdir / path;
 
-	if (boost::filesystem::exists(filename)) {
+	if (boost::filesystem::is_regular_file(filename)) {
 		cf = new ConfigFile;
 		try
 		{
@@ -80,6 +98,7 @@ ConfigFile* ConfigStorageDirectory::readfile(const std::string &path)
 bool ConfigStorageDirectory::writefile(const std::string &path, TStream *str)
 {
 	boost::filesystem::path filename = fdir / path;
+	boost::filesystem::create_directories(filename.parent_path());
 	TFileStream f(filename, fmCreate);
 	f.CopyFrom(str, 0);
 
@@ -123,20 +142,7 @@ ConfigFile* ConfigStorageCFFile::readfile(const std::string &path)
 	if(!cat->isOpen()) return nullptr;
 
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
-	V8Catalog* c = cat;
-	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
-	{
-		V8File *f = c->get_file(fname.substr(0, i - 1));
-		if(!f) {
-			return nullptr;
-		}
-		c = f->get_catalog();
-		if(!c) {
-			return nullptr;
-		}
-		fname = fname.substr(i + 1, fname.size() - i - 1);
-	}
-	V8File *f = c->get_file(fname);
+	V8File *f = nested_file(cat, fname);
 	if (!f) {
 		return nullptr;
 	}
@@ -164,7 +170,10 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		c = c->CreateCatalog(fname.substr(0, i - 1));
+		c = c->CreateCatalog(fname.substr(0, i));
+		if (!c) {
+			return false;
+		}
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
@@ -191,21 +200,11 @@ void ConfigStorageCFFile::close(ConfigFile* cf)
 //---------------------------------------------------------------------------
 bool ConfigStorageCFFile::fileexists(const std::string &path) const
 {
-	// По сути, проверяется существование только каталога (файла верхнего уровня)
-	// Это неправильно для формата 8.0 с файлом каталогом metadata. Но метод fileexists используется только для внешних файлов,
-	// поэтому такой проверки достаточно
-
 	if (!cat->isOpen()) {
 		return false;
 	}
 
-	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
-	auto i = fname.find("\\");
-	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
-	}
-	V8File *f = cat->get_file(fname);
-	return f != nullptr;
+	return nested_file(cat, StringReplace(path, "/", "\\", rfReplaceAll)) != nullptr;
 }
 
 
@@ -408,6 +407,17 @@ ConfigStorageTable::~ConfigStorageTable()
 	delete base;
 }
 
+//---------------------------------------------------------------------------
+// Каталог, хранящийся в файле таблицы. Пустой файл каталогом не является
+static V8Catalog* top_catalog(ContainerFile *top_file)
+{
+	top_file->open();
+	if (!top_file->cat && top_file->stream->GetSize() > 0) {
+		top_file->cat = new V8Catalog(top_file->stream, false, true);
+	}
+	return top_file->cat;
+}
+
 //---------------------------------------------------------------------------
 ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 {
@@ -422,7 +432,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 	{
 		auto i = fname.find("\\");
 		if (i != string::npos) {
-			top_level_name = fname.substr(0, i - 1);
+			top_level_name = fname.substr(0, i);
 			fname = fname.substr(i + 1, fname.size() - i - 1);
 		} else {
 			top_level_name = fname;
@@ -438,24 +448,8 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 
 	top_file->open();
 	if (!fname.empty()) {
-		if (!top_file->cat) {
-			top_file->cat = new V8Catalog(top_file->stream, false, true);
-		}
-		V8Catalog *parent_cat = top_file->cat;
-		for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\")) {
-			V8File *f = parent_cat->get_file(fname.substr(0, i - 1));
-			if (!f) {
-				// TODO: бросить исключение???
-				return nullptr;
-			}
-			parent_cat = f->get_catalog();
-			if (!parent_cat) {
-				// TODO: бросить исключение???
-				return nullptr;
-			}
-			fname = fname.substr(i + 1, fname.size() - i - 1);
-		}
-		V8File *f = parent_cat->get_file(fname);
+		V8Catalog *catalog = top_catalog(top_file);
+		V8File *f = catalog ? nested_file(catalog, fname) : nullptr;
 		if (!f) {
 			// TODO: бросить исключение???
 			return nullptr;
@@ -556,18 +550,20 @@ bool ConfigStorageTable::save_config(const boost::filesystem::path &file_name)
 //---------------------------------------------------------------------------
 bool ConfigStorageTable::fileexists(const std::string &path) const
 {
-	// По сути, проверяется существование только каталога (файла записи верхнего уровня)
-	// Это неправильно для формата 8.0 с файлом каталогом metadata. Но метод fileexists используется только для внешних файлов, поэтому такой проверки достаточно
-
 	if(!ready) return false;
 
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
-	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+	auto pfiles = files.find(LowerCase(fname.substr(0, i)));
+	if (pfiles == files.end()) {
+		return false;
+	}
+	if (i == string::npos) {
+		return true;
 	}
 
-	return files.find(LowerCase(fname)) != files.end();
+	V8Catalog *catalog = top_catalog(pfiles->second);
+	return catalog && nested_file(catalog, fname.substr(i + 1));
 }
 
 //********************************************************
-- 
2.43.0


From 31a539b512e97ad95b006730b4ba50ee092b69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 60/97] fix: stored files of a configuration are matched by
 their full names

---
 src/tool1cd/ConfigStorage.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 7e6db70..84ba981 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -637,10 +637,10 @@ ConfigStorageTableConfig::ConfigStorageTableConfig(TableFiles* tabf, T_1CD* _bas
 		{
 			auto m = name.rfind(sdynupdate);
 			if (m != string::npos) {
-				string update_id = name.substr(m + lsdynupdate - 1, name.size() - m - lsdynupdate);
+				string update_id = name.substr(m + lsdynupdate);
 				name = name.substr(0, m);
-				BinaryGuid update_guid = BinaryGuid(update_id);
-				if (!dynup.empty()) {
+				BinaryGuid update_guid;
+				if (string_to_GUID(update_id, &update_guid)) {
 
 					auto found = std::find(dynup.begin(), dynup.end(), update_guid);
 
@@ -731,7 +731,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 			throw ex;
 		}
 		for (auto &guid : dynup) {
-			del.insert(LowerCase(guid.as_MS()));
+			del.insert(LowerCase(guid.as_1C()));
 		}
 	}
 
@@ -787,8 +787,8 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 
 		m = s.rfind(spoint);
 		if (m != string::npos) {
-			name = s.substr(0, m - 1);
-			ext = s.substr(m + 1, s.size() - m);
+			name = s.substr(0, m);
+			ext = s.substr(m + 1);
 		}
 		else
 		{
@@ -801,12 +801,11 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		}
 		else dynno = -1;
 
-		m = name.find(sdynupdate);
+		m = name.rfind(sdynupdate);
 		if (m != string::npos) {
-			string s = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate + 1);
-			name = name.substr(0, m - 1);
-			string_to_GUID(s, &g);
-			if (!dynup.empty())
+			string s = name.substr(m + lsdynupdate);
+			name = name.substr(0, m);
+			if (string_to_GUID(s, &g))
 			{
 				for(m = 0; m < dynup.size(); ++m) if(g == dynup[m]) break;
 				if(m >= dynup.size()) dynno = -2;
@@ -996,7 +995,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 	{
 		if (EqualIC(ptf.first.substr(0, struid_len), struid)) {
 			TableFile *tf = ptf.second;
-			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len, tf->name.size() - struid_len - 1));
+			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len));
 			if (EqualIC(pcf->name, "configinfo")) {
 				configinfo = pcf;
 			}
@@ -1028,7 +1027,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 		files["configinfo"] = configinfo;
 	}
 	else {
-		config_info_path = present + "\\" + struid_len + "configinfo";
+		config_info_path = present + "\\" + struid + "configinfo";
 	}
 
 	configinfo->open();
@@ -1156,6 +1155,9 @@ std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt)
 		dynup.reserve(ndynup);
 		while (ndynup--) {
 			ct = ct->get_next();
+			if (!ct) {
+				throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
+			}
 			dynup.emplace_back(BinaryGuid(ct->get_value()));
 		}
 	}
-- 
2.43.0


From 17c0d56c26ba185b6faa7c417d18867a416031db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 61/97] fix: the byte order mark is not part of a text read
 from a stream

---
 src/tool1cd/SystemClasses/TStreamReader.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStreamReader.cpp b/src/tool1cd/SystemClasses/TStreamReader.cpp
index c4ca7a3..a2594f0 100644
--- a/src/tool1cd/SystemClasses/TStreamReader.cpp
+++ b/src/tool1cd/SystemClasses/TStreamReader.cpp
@@ -28,6 +28,17 @@ namespace Classes {
 TStreamReader::TStreamReader(TStream *stream, bool DetectBOM)
 	: stream(stream)
 {
+	if (!DetectBOM) {
+		return;
+	}
+	const auto start = stream->GetPosition();
+	const auto preamble = SysUtils::TEncoding::UTF8->GetPreamble();
+	for (auto byte : preamble) {
+		if (Read() != byte) {
+			stream->Seek(start, soFromBeginning);
+			return;
+		}
+	}
 }
 
 int TStreamReader::Read()
-- 
2.43.0


From d4494bb8269291bbe051153c235fd27755fd7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 62/97] fix: a file that cannot be opened or created is an
 error

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 37 +++++++++++++----------
 src/tool1cd/SystemClasses/TFileStream.hpp |  3 ++
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 457fb97..934a6f2 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include "TFileStream.hpp"
+#include "Exception.hpp"
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
@@ -27,30 +28,36 @@ namespace System {
 namespace Classes {
 
 TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
-	: TWrapperStream(), filename(FileName)
+	: TWrapperStream(), filename(FileName), read_only((fileMode & 0x000F) == fmOpenRead)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
-	}
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
+	open_file(fileMode == fmCreate);
 	m_position = 0;
 }
 
 TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fileMode)
-	: TWrapperStream(), filename(path.string())
+	: TWrapperStream(), filename(path.string()), read_only((fileMode & 0x000F) == fmOpenRead)
+{
+	open_file(fileMode == fmCreate);
+	m_position = 0;
+}
+
+void TFileStream::open_file(bool create)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
+	if (!read_only) {
+		mode |= std::ios::out;
+	}
+	if (create) {
 		mode |= std::ios::trunc;
 	}
-	_stream = std::make_shared<boost::filesystem::fstream>(path, mode);
+	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	if (!_stream->is_open() || boost::filesystem::is_directory(boost::filesystem::path(filename))) {
+		_stream.reset();
+		throw Exception("Cannot open file " + filename);
+	}
 	reopen(_stream);
-	m_position = 0;
 }
 
-
 TFileStream::~TFileStream()
 {
 	Close();
@@ -68,9 +75,7 @@ void TFileStream::Reopen()
 			return;
 		}
 	}
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
+	open_file(false);
 }
 
 
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index 4d960c7..a1ac341 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -57,7 +57,10 @@ public:
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
 
 protected:
+	void open_file(bool create);
+
 	std::string filename;
+	bool read_only;
 	std::shared_ptr<std::fstream> _stream;
 };
 
-- 
2.43.0


From 046c5c5bfdb1a0f707411235145c96d3863c1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 63/97] fix: imported objects get their version numbers where
 the format keeps them

---
 src/tool1cd/Class_1CD.cpp | 17 ++++-------------
 src/tool1cd/Table.cpp     | 18 ++++--------------
 src/tool1cd/V8Object.cpp  | 10 ++++++++++
 src/tool1cd/V8Object.h    |  1 +
 4 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 249c4a8..528a1b8 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1218,7 +1218,6 @@ bool T_1CD::create_table(const string &path)
 	uint32_t i;
 	int32_t j;
 	export_import_table_root* root;
-	v8ob* ob;
 	V8Object* descr_table;
 	V8Object* file_data;
 	V8Object* file_blob;
@@ -1288,9 +1287,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_data = new V8Object(this);
 		file_data->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_data->get_block_number(), true);
-		ob->version.version_1 = root->data_version_1;
-		ob->version.version_2 = root->data_version_2;
+		file_data->set_current_version(root->data_version_1, root->data_version_2);
 		delete f;
 	}
 
@@ -1308,9 +1305,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_blob = new V8Object(this);
 		file_blob->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_blob->get_block_number(), true);
-		ob->version.version_1 = root->blob_version_1;
-		ob->version.version_2 = root->blob_version_2;
+		file_blob->set_current_version(root->blob_version_1, root->blob_version_2);
 		delete f;
 	}
 
@@ -1328,9 +1323,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_index = new V8Object(this);
 		file_index->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_index->get_block_number(), true);
-		ob->version.version_1 = root->index_version_1;
-		ob->version.version_2 = root->index_version_2;
+		file_index->set_current_version(root->index_version_1, root->index_version_2);
 		delete f;
 	}
 
@@ -1348,9 +1341,6 @@ bool T_1CD::create_table(const string &path)
 		if(fopen)
 		{
 			descr_table = new V8Object(this);
-			ob = (v8ob*)get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root->descr_version_1;
-			ob->version.version_2 = root->descr_version_2;
 
 			string descr = from_unicode_stream(*f);
 			delete f;
@@ -1369,6 +1359,7 @@ bool T_1CD::create_table(const string &path)
 			descr += file_index ? to_string(file_index->get_block_number()) : "0";
 			descr += "}\n}";
 			descr_table->set_data(descr.c_str(), descr.size() * 2);
+			descr_table->set_current_version(root->descr_version_1, root->descr_version_2);
 
 			i = root_object->get_len();
 			char *buf = new char[i + 4];
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 1555245..55eead7 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1205,7 +1205,6 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	TFileStream* f;
 	bool fopen;
-	v8ob* ob;
 
 	bool descr_changed = false;
 
@@ -1243,9 +1242,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_data->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_data->get_block_number(), true);
-			ob->version.version_1 = root.data_version_1;
-			ob->version.version_2 = root.data_version_2;
+			file_data->set_current_version(root.data_version_1, root.data_version_2);
 			delete f;
 		}
 	}
@@ -1270,9 +1267,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_blob->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_blob->get_block_number(), true);
-			ob->version.version_1 = root.blob_version_1;
-			ob->version.version_2 = root.blob_version_2;
+			file_blob->set_current_version(root.blob_version_1, root.blob_version_2);
 			delete f;
 		}
 	}
@@ -1297,9 +1292,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_index->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_index->get_block_number(), true);
-			ob->version.version_1 = root.index_version_1;
-			ob->version.version_2 = root.index_version_2;
+			file_index->set_current_version(root.index_version_1, root.index_version_2);
 			delete f;
 		}
 	}
@@ -1321,10 +1314,6 @@ void Table::import_table(const boost::filesystem::path &path)
 		if(fopen)
 		{
 			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			ob = (v8ob*)base->get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root.descr_version_1;
-			ob->version.version_2 = root.descr_version_2;
-
 			auto buf_size = f->GetSize();
 			char *buf = new char[buf_size];
 			f->Read(buf, buf_size);
@@ -1348,6 +1337,7 @@ void Table::import_table(const boost::filesystem::path &path)
 
 			auto data = TEncoding::Unicode->fromUtf8(str);
 			descr_table->set_data(data.data(), data.size());
+			descr_table->set_current_version(root.descr_version_1, root.descr_version_2);
 
 		}
 
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index e516973..9f60342 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1410,6 +1410,16 @@ void V8Object::write_new_version()
 	new_version_recorded = true;
 }
 
+void V8Object::set_current_version(uint32_t version_1, uint32_t version_2)
+{
+	int32_t veroffset = type == v8objtype::data80 || type == v8objtype::free80 ? 12 : 4;
+
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+	memcpy(base->get_block_for_write(block, true) + veroffset, &version, 8);
+	new_version_recorded = true;
+}
+
 _version V8Object::get_current_version() const
 {
 	return version;
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index f733bb7..fe49f4b 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -122,6 +122,7 @@ public:
 	void get_version(_version* ver); // получает сохраненную версию объекта
 	void write_new_version(); // записывает новую версию объекта
 	_version get_current_version() const;
+	void set_current_version(uint32_t version_1, uint32_t version_2); // записывает заданную версию объекта
 
 	V8Object* get_next();
 
-- 
2.43.0


From f2f0f25842d47ac5f0139cd90cb2214057b55f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 64/97] fix: a table is created with a readable description

---
 src/tool1cd/Class_1CD.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 528a1b8..7d2c6ff 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1214,7 +1214,6 @@ string from_unicode_stream(TStream &f)
 bool T_1CD::create_table(const string &path)
 {
 	TFileStream* f;
-	bool fopen;
 	uint32_t i;
 	int32_t j;
 	export_import_table_root* root;
@@ -1228,6 +1227,11 @@ bool T_1CD::create_table(const string &path)
 		return false;
 	}
 
+	if (version >= db_ver::ver8_3_8_0) {
+		throw DetailedException("Создание таблиц в базах этой версии не поддерживается")
+			.add_detail("Каталог", dir.string());
+	}
+
 	boost::filesystem::path path_root = dir / "root";
 	try
 	{
@@ -1338,7 +1342,6 @@ bool T_1CD::create_table(const string &path)
 			throw DetailedException("Ошибка открытия файла импорта таблицы descr")
 				.add_detail("Файл", path_descr.string());
 		}
-		if(fopen)
 		{
 			descr_table = new V8Object(this);
 
@@ -1358,7 +1361,8 @@ bool T_1CD::create_table(const string &path)
 			descr += ",";
 			descr += file_index ? to_string(file_index->get_block_number()) : "0";
 			descr += "}\n}";
-			descr_table->set_data(descr.c_str(), descr.size() * 2);
+			auto descr_bytes = TEncoding::Unicode->fromUtf8(descr);
+			descr_table->set_data(descr_bytes.data(), descr_bytes.size());
 			descr_table->set_current_version(root->descr_version_1, root->descr_version_2);
 
 			i = root_object->get_len();
-- 
2.43.0


From b77c7ee89edda02f38c99c0d1f17b4f8b3101c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 65/97] fix: an import that cannot be completed is refused
 before anything is changed

---
 src/tool1cd/Class_1CD.cpp |  3 +++
 src/tool1cd/Table.cpp     | 25 +++++++++++++++++++++++++
 src/tool1cd/Table.h       |  3 +++
 3 files changed, 31 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 7d2c6ff..35bd54b 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1246,6 +1246,9 @@ bool T_1CD::create_table(const string &path)
 	f->Read(root, sizeof(export_import_table_root));
 	delete f;
 
+	// все нужные файлы должны быть на месте до того, как что-либо будет изменено
+	check_import_files(dir, *root);
+
 
 	boost::filesystem::path path_descr = dir / "descr";
 	try
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 55eead7..749e5ba 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1194,6 +1194,20 @@ void Table::export_table(const boost::filesystem::path &path) const
 
 }
 
+//---------------------------------------------------------------------------
+void check_import_files(const boost::filesystem::path &dir, const export_import_table_root &root)
+{
+	const pair<bool, const char *> files[] = {
+		{root.has_data, "data"}, {root.has_blob, "blob"}, {root.has_index, "index"}, {root.has_descr, "descr"}
+	};
+	for (auto &file : files) {
+		if (file.first && !boost::filesystem::is_regular_file(dir / file.second)) {
+			throw DetailedException("Отсутствует файл импорта таблицы")
+				.add_detail("Файл", (dir / file.second).string());
+		}
+	}
+}
+
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
@@ -1222,6 +1236,17 @@ void Table::import_table(const boost::filesystem::path &path)
 	f->Read(&root, sizeof(export_import_table_root));
 	delete f;
 
+	// все нужные файлы должны быть на месте до того, как что-либо будет изменено
+	check_import_files(dir, root);
+
+	if ((root.has_blob && !file_blob) || (root.has_index && !file_index)) {
+		// описание таблицы нужно переписать, а в формате 8.3.8 оно не является отдельным объектом
+		if (!descr_table || !root.has_descr) {
+			throw DetailedException("Невозможно создать недостающие объекты таблицы при импорте")
+				.add_detail("Таблица", name);
+		}
+	}
+
 	if(root.has_data) {
 		fopen = false;
 		try
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index 3d96612..245d390 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -104,6 +104,9 @@ struct export_import_table_root
 	int32_t descr_version_2; // версия изменения
 };
 
+// проверяет наличие всех файлов импорта таблицы, указанных в root
+void check_import_files(const boost::filesystem::path &dir, const export_import_table_root &root);
+
 class Table {
 public:
 	//--> поддержка динамического построения таблицы записей
-- 
2.43.0


From fd53e8bd84dce984a3dc37eb694aed4880bc277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 66/97] fix: an object with a wrong header is refused and not
 remembered

---
 src/tool1cd/V8Object.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 9f60342..2a1b85a 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -79,12 +79,6 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	base = _base;
 	lockinmemory = false;
 
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
-
 	if(blockNum == 1)
 	{
 		if(base->get_version() < db_ver::ver8_3_8_0) type = v8objtype::free80;
@@ -147,6 +141,14 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				numblocks = 0;
 			}
 
+			if(numblocks > 1018)
+			{
+				delete t;
+				init();
+				throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum));
+			}
+
 			if(numblocks > 0) {
 				blocks.clear();
 				blocks.resize(numblocks);
@@ -206,6 +208,14 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			numblocks = 0;
 		}
 
+		if(numblocks > base->get_pagesize() / 4 - 6)
+		{
+			delete[] b;
+			init();
+			throw DetailedException("Ошибка получения файла из страницы. Длина файла больше допустимой.")
+				.add_detail("Блок", to_hex_string(blockNum));
+		}
+
 		if(numblocks > 0) {
 			blocks.clear();
 			blocks.resize(numblocks);
@@ -263,6 +273,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	}
 
 
+	// в список попадают только объекты, прочитанные без ошибок
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
+
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
 			.with("Длина", len)
-- 
2.43.0


From d1d41ee8be97136deb18180044d8a65f983b6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 67/97] fix: lost objects of every format are saved into the
 given directory, and only they

---
 src/tool1cd/Class_1CD.cpp | 88 ++++++++++++++++++++++-----------------
 src/tool1cd/Class_1CD.h   |  2 +
 src/tool1cd/V8Object.cpp  | 55 ++++++++++++++++++++++++
 src/tool1cd/V8Object.h    |  1 +
 4 files changed, 108 insertions(+), 38 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 35bd54b..dca6ae2 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -585,33 +585,58 @@ void T_1CD::flush()
 
 //---------------------------------------------------------------------------
 
-void T_1CD::find_lost_objects()
+std::vector<uint32_t> T_1CD::get_lost_objects()
 {
-	uint32_t i;
-	char buf[8];
-	V8Object* v8obj;
-	bool block_is_find;
+	vector<bool> used(length, false);
+	auto mark = [&used](V8Object *ob) {
+		if (!ob) {
+			return;
+		}
+		for (auto page : ob->get_pages()) {
+			if (page < used.size()) {
+				used[page] = true;
+			}
+		}
+	};
 
-	for(i = 1; i < length; i++)
-	{
+	mark(free_blocks);
+	mark(root_object);
+	for (int32_t i = 0; i < num_tables; i++) {
+		mark(tables[i]->get_descriptor_table());
+		mark(tables[i]->get_file_data());
+		mark(tables[i]->get_file_blob());
+		mark(tables[i]->get_file_index());
+	}
+
+	vector<uint32_t> lost;
+	for (uint32_t i = 1; i < length; i++) {
+		char buf[8];
 		get_block(buf, i, 8);
-		if(memcmp(buf, SIG_OBJ, 8) == 0)
-		{
-			block_is_find = false;
-			for(v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next())
-			{
-				if(v8obj->get_block_number() == i)
-				{
-					block_is_find = true;
-					break;
-				}
-			}
-			if (!block_is_find) {
-				msreg_m.AddMessage("Найден потерянный объект", MessageState::Info)
-						.with("Номер блока", to_hex_string(i));
-			}
+		bool is_object = version < db_ver::ver8_3_8_0
+				? memcmp(buf, SIG_OBJ, 8) == 0
+				: buf[0] == '\x1c' && buf[1] == '\xfd' && (buf[2] == 0 || buf[2] == 1) && buf[3] == 0;
+		if (!is_object || used[i]) {
+			continue;
+		}
+		try {
+			V8Object found(this, i);
+			mark(&found);
+			lost.push_back(i);
+		}
+		catch (DetailedException &) {
+			// страница только похожа на объект
 		}
 	}
+	return lost;
+}
+
+//---------------------------------------------------------------------------
+void T_1CD::find_lost_objects()
+{
+	for (auto i : get_lost_objects()) {
+		msreg_m.AddMessage("Найден потерянный объект", MessageState::Info)
+				.with("Номер блока", to_hex_string(i));
+	}
 	msreg_m.AddMessage("Поиск потерянных объектов завершен", MessageState::Succesfull);
 }
 
@@ -1867,22 +1892,9 @@ void T_1CD::find_and_create_lost_tables()
 //---------------------------------------------------------------------------
 void T_1CD::find_and_save_lost_objects(boost::filesystem::path &lost_objects)
 {
-	for(uint32_t i = 1; i < length; i++) {
-		char buf[8];
-		get_block(buf, i, 8);
-		if(memcmp(buf, SIG_OBJ, 8) == 0) {
-			bool block_is_find = false;
-			for(auto v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next()) {
-				if(v8obj->get_block_number() == i) {
-					block_is_find = true;
-					break;
-				}
-			}
-			if(!block_is_find) {
-				unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
-				find_v8obj->savetofile(lost_objects.string() + "block" + to_string(i));
-			}
-		}
+	for (auto i : get_lost_objects()) {
+		V8Object lost_object(this, i);
+		lost_object.savetofile(lost_objects / ("block" + to_string(i)));
 	}
 	msreg_m.AddMessage("Поиск и сохранение потерянных объектов завершен", MessageState::Succesfull);
 
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 534e81a..8ff81e7 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -274,6 +274,8 @@ private:
 	bool supplier_configs_defined {false}; // признак, что был произведен поиск конфигураций поставщика
 	void find_supplier_configs();
 
+	std::vector<uint32_t> get_lost_objects(); // номера страниц объектов, на которые никто не ссылается
+
 	bool _is_infobase; // признак информационной базы
 
 	TableFiles* _files_config;
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 2a1b85a..f0ef28e 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1414,6 +1414,61 @@ uint32_t V8Object::get_block_by_index(const uint32_t index) const
 	return blocks[index];
 }
 
+//---------------------------------------------------------------------------
+std::vector<uint32_t> V8Object::get_pages() const
+{
+	std::vector<uint32_t> pages(1, block);
+	pages.insert(pages.end(), blocks.begin(), blocks.end());
+
+	auto add_page = [&pages, this](uint32_t page) {
+		if (page == 0 || page >= base->getMemBlockManager().get_numblocks()) {
+			throw DetailedException("Страница объекта находится за пределами файла базы.")
+				.add_detail("Номер страницы объекта", to_hex_string(block))
+				.add_detail("Номер страницы", to_hex_string(page));
+		}
+		pages.push_back(page);
+	};
+
+	for (size_t i = 1; i < pages.size(); i++) {
+		if (pages[i] == 0 || pages[i] >= base->getMemBlockManager().get_numblocks()) {
+			throw DetailedException("Страница объекта находится за пределами файла базы.")
+				.add_detail("Номер страницы объекта", to_hex_string(block))
+				.add_detail("Номер страницы", to_hex_string(pages[i]));
+		}
+	}
+
+	if (type == v8objtype::data80) {
+		uint64_t rest = (len + DEFAULT_PAGE_SIZE - 1) / DEFAULT_PAGE_SIZE;
+		for (auto table_page : blocks) {
+			auto b = (objtab*)base->get_block(table_page);
+			std::vector<uint32_t> numbers(b->blocks, b->blocks + std::min<uint64_t>(rest, 1023));
+			rest -= numbers.size();
+			for (auto page : numbers) {
+				add_page(page);
+			}
+		}
+	}
+	else if (type == v8objtype::free80) {
+		for (uint64_t i = 0; i < len; i++) {
+			add_page(((uint32_t*)base->get_block(blocks[i >> 10]))[i & 0x3ff]);
+		}
+	}
+	else if (type == v8objtype::data838 && fatlevel) {
+		uint64_t pagesize = base->get_pagesize();
+		uint64_t rest = (len + pagesize - 1) / pagesize;
+		for (auto table_page : blocks) {
+			auto b = (uint32_t*)base->get_block(table_page);
+			std::vector<uint32_t> numbers(b, b + std::min<uint64_t>(rest, pagesize / 4));
+			rest -= numbers.size();
+			for (auto page : numbers) {
+				add_page(page);
+			}
+		}
+	}
+
+	return pages;
+}
+
 //---------------------------------------------------------------------------
 void V8Object::write_new_version()
 {
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index fe49f4b..e6ca4f6 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -132,6 +132,7 @@ public:
 	uint32_t get_block_number() const;
 	uint32_t get_numblocks() const;
 	uint32_t get_block_by_index(const uint32_t index) const;
+	std::vector<uint32_t> get_pages() const; // номера всех страниц, занятых объектом (для таблицы свободных блоков - и самих свободных)
 	TStream* readBlob(TStream* _str, uint32_t _startblock, uint32_t _length = UINT_MAX, bool rewrite = true);
 
 private:
-- 
2.43.0


From 2a1ed915d95fd734f73b3a63d420ed5451379ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 68/97] fix: a repository version without any objects is dumped

---
 src/tool1cd/save_depot_config.cpp      | 6 ++++--
 src/tool1cd/save_part_depot_config.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 928026e..6dc737c 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -281,7 +281,7 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 			rech2 = table_history->get_record(num_rec);
 		}
 
-		if (rech2->get<BinaryGuid>(fldh_objid) != curobj || iHistory_Index == HistoryIndex_numrec) {
+		if (iHistory_Index == HistoryIndex_numrec || rech2->get<BinaryGuid>(fldh_objid) != curobj) {
 			// это новый объект или конец таблицы
 			if(!lastremoved)
 			{
@@ -359,7 +359,9 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 				}
 			}
 
-			curobj = rech2->get<BinaryGuid>(fldh_objid);
+			if (iHistory_Index < HistoryIndex_numrec) {
+				curobj = rech2->get<BinaryGuid>(fldh_objid);
+			}
 			lastremoved = true;
 		}
 
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a2dc786..fe361c2 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -249,7 +249,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 			rech = table_history->get_record(i);
 		}
 
-		if (rech->get<BinaryGuid>(fldh_objid) != curobj || history_iterator == history_records)
+		if (history_iterator == history_records || rech->get<BinaryGuid>(fldh_objid) != curobj)
 		{ // это новый объект или конец таблицы
 			if(history_iterator)
 				if(hasrech2)
@@ -472,7 +472,9 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 					}
 				}
 
-			curobj = rech->get<BinaryGuid>(fldh_objid);
+			if (history_iterator < history_records) {
+				curobj = rech->get<BinaryGuid>(fldh_objid);
+			}
 			hasrech1 = false;
 			hasrech2 = false;
 		}
-- 
2.43.0


From 9713c4a6b8671d6b5261c7e8457ec4bed196ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 69/97] fix: the first version of a range is read with all its
 digits

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 99c4ea8..d3ae2af 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -476,7 +476,7 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
 				, 0);
 		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter - 1)
+				.substr(0, splitter)
 				, 0);
 	} else {
 		begin_version = ToIntDef(version_number_param, 0);
-- 
2.43.0


From 0c8472c26edffb34adda3c10e0d75806fa79e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 70/97] fix: the list of deleted objects is written into the
 given directory

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index fe361c2..2d2988c 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -498,7 +498,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	delete sw;
 	if(hasdeleted)
 	{
-		f = new TFileStream(root_path / "deleted", fmCreate);
+		f = new TFileStream(filepath / "deleted", fmCreate);
 		f->CopyFrom(sd, 0);
 		delete f;
 	}
-- 
2.43.0


From 636fcd0dc872d2474ad7567872fd413ac278f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 71/97] fix: a partial dump compares the data of the two
 versions

---
 src/tool1cd/save_part_depot_config.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 2d2988c..0a2fa2d 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -280,7 +280,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 						{
 							bool changed = true;
 							bool inreaded = false;
-							if(hasrech1)
+							if(hasrech1 && !rech1->get<bool>(fldh_removed))
 							{
 								datapacked = false;
 								if (!rech1->is_null_value(fldh_datapacked)) {
@@ -291,26 +291,23 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 								if(datapacked)
 								{
 									auto b = rech1->get<table_blob_file>(fldh_objdata);
-									if (!rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0)) {
+									bool has_data1 = !rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0);
+									auto b2 = rech2->get<table_blob_file>(fldh_objdata);
+									bool has_data2 = !rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0);
 
+									if (has_data1 && has_data2) {
 										table_history->readBlob(out, b.blob_start, b.blob_length);
-
-										auto b2 = rech2->get<table_blob_file>(fldh_objdata);
-										if (!rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0)) {
-										{
-											table_history->readBlob(out, b2.blob_start, b2.blob_length);
-											inreaded = true;
-											if (in->GetSize() == out->GetSize()) {
-												if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
-													changed = false;
-												}
+										table_history->readBlob(in, b2.blob_start, b2.blob_length);
+										inreaded = true;
+										if (in->GetSize() == out->GetSize()) {
+											if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
+												changed = false;
 											}
 										}
 									}
-									else if(depotVer >= depot_ver::Ver6)
+									else if(!has_data1 && !has_data2 && depotVer >= depot_ver::Ver6)
 									{
 										// TODO: тип под Datahash
-									}
 										if (memcmp(rech2->get_data(fldh_datahash)
 												, rech1->get_data(fldh_datahash)
 												, fldh_datahash->get_length()) == 0) {
-- 
2.43.0


From 4132ff8d7d6fb52e732e05b8f990179c8a149745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 72/97] fix: objects of a partial dump are named as in the
 configuration

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 0a2fa2d..27019a4 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -255,7 +255,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 				if(hasrech2)
 				{
 					lastver = ToIntDef(rech2->get_string(fldh_vernum), numeric_limits<int32_t>::max());
-					string sObjId = rech2->get_string(fldh_objid);
+					string sObjId = rech2->get<BinaryGuid>(fldh_objid).as_MS();
 
 					hasext = true;
 					bool removed = rech2->get<bool>(fldh_removed);
-- 
2.43.0


From 60604f7af2b7c92b0ed80b405bf65e4706cdf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 73/97] fix: a later record without data does not hide a change
 in a partial dump

---
 src/tool1cd/save_part_depot_config.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 27019a4..85ac028 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -479,6 +479,11 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 		if(history_iterator < history_records)
 		{
 			int v = ToIntDef(rech->get_string(fldh_vernum), numeric_limits<int32_t>::max());
+			bool has_change = rech->get<bool>(fldh_removed)
+					|| (!rech->is_null_value(fldh_datapacked) && rech->get<bool>(fldh_datapacked));
+			if (!has_change) {
+				continue; // объект не изменился
+			}
 			if (v < ver_begin)
 			{
 				rech1 = rech;
-- 
2.43.0


From 7cc5043a34a6fe437ce0ffb9d84d40bcf0633945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 74/97] fix: only names made of two identifiers are supplier
 configurations

---
 src/tool1cd/Class_1CD.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index dca6ae2..c546b2a 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -527,19 +527,43 @@ bool T_1CD::save_configsave(const boost::filesystem::path& file_name)
 }
 
 //---------------------------------------------------------------------------
-void T_1CD::find_supplier_configs()
+// Состоит из 36(GUID) + 1(.) + 36(GUID)
+static bool is_supplier_config_name(const std::string &name)
 {
-	// Состоит из 36(GUID) + 1(.) + 36(GUID)
-	constexpr int32_t SUPPLIER_CONFIG_NAME_LEN = 73;
+	constexpr size_t SUPPLIER_CONFIG_NAME_LEN = GUID_LEN * 2 + 1;
+
+	if (name.size() != SUPPLIER_CONFIG_NAME_LEN) {
+		return false;
+	}
+	for (size_t i = 0; i < name.size(); i++) {
+		const size_t pos = i % (GUID_LEN + 1);
+		const char c = name[i];
+		if (i == GUID_LEN) {
+			if (c != '.') {
+				return false;
+			}
+		} else if (pos == 8 || pos == 13 || pos == 18 || pos == 23) {
+			if (c != '-') {
+				return false;
+			}
+		} else if (!isxdigit(static_cast<unsigned char>(c))) {
+			return false;
+		}
+	}
+	return true;
+}
 
+//---------------------------------------------------------------------------
+void T_1CD::find_supplier_configs()
+{
 	for(auto& config_save: get_files_configsave()->files()) {
-		if(config_save.first.size() == SUPPLIER_CONFIG_NAME_LEN) {
+		if(is_supplier_config_name(config_save.first)) {
 			 add_supplier_config(config_save.second);
 		}
 	}
 
 	for(auto& config : get_files_config()->files()) {
-		if(config.first.size() == SUPPLIER_CONFIG_NAME_LEN) {
+		if(is_supplier_config_name(config.first)) {
 			add_supplier_config(config.second);
 		}
 	}
-- 
2.43.0


From 72ccbd24389cfa1ff330344fa425cba05c257342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 75/97] fix: give Base64.cpp and TempStream.cpp their line ends
 back

---
 src/tool1cd/Base64.cpp     | 326 ++++++++++++++++++-------------------
 src/tool1cd/TempStream.cpp | 168 +++++++++----------
 2 files changed, 247 insertions(+), 247 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index bd94d7a..92a6b52 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -1,163 +1,163 @@
-/*
-    Tool1CD library provides access to 1CD database files.
-    Copyright © 2009-2017 awa
-    Copyright © 2017-2018 E8 Tools contributors
-
-    This file is part of Tool1CD Library.
-
-    Tool1CD Library is free software: you can redistribute it and/or modify
-    it under the terms of the GNU Lesser General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    Tool1CD Library is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU Lesser General Public License for more details.
-
-    You should have received a copy of the GNU Lesser General Public License
-    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
-*/
-#include "Base64.h"
-
-#if !defined(_WIN32)
-#pragma package(smart_init)
-#endif
-
-// Куски исходного кода взяты с http://base64.sourceforge.net/
-
-// Translation Table as described in RFC1113
-static const char cb64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-
-//// Translation Table to decode (created by author)
-static const char cd64[]="|$$$}rstuvwxyz{$$$$$$$>?@ABCDEFGHIJKLMNOPQRSTUVW$$$$$$XYZ[\\]^_`abcdefghijklmnopq";
-
-// encode
-// base64 encode a stream adding padding and line breaks as per spec.
-// linesize - длина строки. Если linesize = 0, выводится всё в одну строку, без переносов
-void base64_encode(TStream* infile, TStream* outfile, int linesize)
-{
-	unsigned char in[3];
-	WCHART out[4];
-	int64_t i;
-	//int len, blocksout = 0;
-	int blocksout = 0;
-	int64_t len;
-	const WCHART linebreak[2] = {'\r', '\n'};
-	int64_t inlenblock = infile->GetSize() / 3;
-
-	infile->Seek(0, soBeginning);
-	for(i = 0; i < inlenblock; i++)
-	{
-		if(blocksout >= linesize/4 && linesize)
-		{
-			outfile->Write(linebreak, sizeof(linebreak));
-			blocksout = 0;
-		}
-		blocksout++;
-		infile->Read(in, 3);
-		out[0] = cb64[in[0] >> 2];
-		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
-		out[2] = cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)];
-		out[3] = cb64[in[2] & 0x3f];
-		outfile->Write(out, 8);
-	}
-
-	len = infile->GetSize() - infile->GetPosition();
-	if(len > 0)
-	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(linebreak, sizeof(linebreak));
-		in[1] = 0;
-		in[2] = 0;
-		infile->Read(in, len);
-		out[0] = cb64[in[0] >> 2];
-		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
-		out[2] = len > 1 ? cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)] : L'=';
-		out[3] = len > 2 ? cb64[in[2] & 0x3f] : L'=';
-		outfile->Write(out, 8);
-	}
-
-}
-
-
-// decode
-// decode a base64 encoded stream discarding padding, line breaks and noise
-void base64_decode(TStream* infile, TStream* outfile)
-{
-	unsigned char in[4], out[3], v;
-	WCHART s;
-	int i, len;
-
-	while(infile->GetPosition() < infile->GetSize())
-	{
-		for(len = 0, i = 0; i < 4 && infile->GetPosition() < infile->GetSize(); i++ )
-		{
-			v = 0;
-			while(infile->GetPosition() < infile->GetSize() && v == 0)
-			{
-				infile->Read(&s, 2);
-				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
-				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
-			}
-			if(v)
-			{
-				in[i] = (unsigned char)(v - 1);
-				len++;
-			}
-			else in[i] = 0;
-		}
-		if(len)
-		{
-			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
-			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
-			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
-			outfile->Write(out, len - 1);
-		}
-
-	}
-
-}
-
-// decode
-// decode a base64 encoded stream discarding padding, line breaks and noise
-void base64_decode(const std::string &instr, TStream *outfile, int start)
-{
-	unsigned char in[4], out[3], v;
-	char s;
-	const char* str;
-	int i, len, is, slen;
-
-	slen = instr.size();
-	str = instr.c_str();
-	is = start;
-
-	while(is < slen)
-	{
-		for(len = 0, i = 0; i < 4 && is < slen; i++ )
-		{
-			v = 0;
-			while(is < slen && v == 0)
-			{
-				s = str[is++];
-				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
-				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
-			}
-			if(v)
-			{
-				in[i] = (unsigned char)(v - 1);
-				len++;
-			}
-			else in[i] = 0;
-		}
-		if(len)
-		{
-			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
-			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
-			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
-			outfile->Write(out, len - 1);
-		}
-
-	}
-
-}
-
+/*
+    Tool1CD library provides access to 1CD database files.
+    Copyright © 2009-2017 awa
+    Copyright © 2017-2018 E8 Tools contributors
+
+    This file is part of Tool1CD Library.
+
+    Tool1CD Library is free software: you can redistribute it and/or modify
+    it under the terms of the GNU Lesser General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    Tool1CD Library is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU Lesser General Public License for more details.
+
+    You should have received a copy of the GNU Lesser General Public License
+    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
+*/
+#include "Base64.h"
+
+#if !defined(_WIN32)
+#pragma package(smart_init)
+#endif
+
+// Куски исходного кода взяты с http://base64.sourceforge.net/
+
+// Translation Table as described in RFC1113
+static const char cb64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
+
+//// Translation Table to decode (created by author)
+static const char cd64[]="|$$$}rstuvwxyz{$$$$$$$>?@ABCDEFGHIJKLMNOPQRSTUVW$$$$$$XYZ[\\]^_`abcdefghijklmnopq";
+
+// encode
+// base64 encode a stream adding padding and line breaks as per spec.
+// linesize - длина строки. Если linesize = 0, выводится всё в одну строку, без переносов
+void base64_encode(TStream* infile, TStream* outfile, int linesize)
+{
+	unsigned char in[3];
+	WCHART out[4];
+	int64_t i;
+	//int len, blocksout = 0;
+	int blocksout = 0;
+	int64_t len;
+	const WCHART linebreak[2] = {'\r', '\n'};
+	int64_t inlenblock = infile->GetSize() / 3;
+
+	infile->Seek(0, soBeginning);
+	for(i = 0; i < inlenblock; i++)
+	{
+		if(blocksout >= linesize/4 && linesize)
+		{
+			outfile->Write(linebreak, sizeof(linebreak));
+			blocksout = 0;
+		}
+		blocksout++;
+		infile->Read(in, 3);
+		out[0] = cb64[in[0] >> 2];
+		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
+		out[2] = cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)];
+		out[3] = cb64[in[2] & 0x3f];
+		outfile->Write(out, 8);
+	}
+
+	len = infile->GetSize() - infile->GetPosition();
+	if(len > 0)
+	{
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(linebreak, sizeof(linebreak));
+		in[1] = 0;
+		in[2] = 0;
+		infile->Read(in, len);
+		out[0] = cb64[in[0] >> 2];
+		out[1] = cb64[((in[0] & 0x03) << 4) | ((in[1] & 0xf0) >> 4)];
+		out[2] = len > 1 ? cb64[((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6)] : L'=';
+		out[3] = len > 2 ? cb64[in[2] & 0x3f] : L'=';
+		outfile->Write(out, 8);
+	}
+
+}
+
+
+// decode
+// decode a base64 encoded stream discarding padding, line breaks and noise
+void base64_decode(TStream* infile, TStream* outfile)
+{
+	unsigned char in[4], out[3], v;
+	WCHART s;
+	int i, len;
+
+	while(infile->GetPosition() < infile->GetSize())
+	{
+		for(len = 0, i = 0; i < 4 && infile->GetPosition() < infile->GetSize(); i++ )
+		{
+			v = 0;
+			while(infile->GetPosition() < infile->GetSize() && v == 0)
+			{
+				infile->Read(&s, 2);
+				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
+				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
+			}
+			if(v)
+			{
+				in[i] = (unsigned char)(v - 1);
+				len++;
+			}
+			else in[i] = 0;
+		}
+		if(len)
+		{
+			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
+			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
+			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
+			outfile->Write(out, len - 1);
+		}
+
+	}
+
+}
+
+// decode
+// decode a base64 encoded stream discarding padding, line breaks and noise
+void base64_decode(const std::string &instr, TStream *outfile, int start)
+{
+	unsigned char in[4], out[3], v;
+	char s;
+	const char* str;
+	int i, len, is, slen;
+
+	slen = instr.size();
+	str = instr.c_str();
+	is = start;
+
+	while(is < slen)
+	{
+		for(len = 0, i = 0; i < 4 && is < slen; i++ )
+		{
+			v = 0;
+			while(is < slen && v == 0)
+			{
+				s = str[is++];
+				v = (unsigned char)((s < 43 || s > 122) ? 0 : cd64[s - 43]);
+				if(v) v = (unsigned char)((v == '$') ? 0 : v - 61);
+			}
+			if(v)
+			{
+				in[i] = (unsigned char)(v - 1);
+				len++;
+			}
+			else in[i] = 0;
+		}
+		if(len)
+		{
+			out[0] = (unsigned char) (in[0] << 2 | in[1] >> 4);
+			out[1] = (unsigned char) (in[1] << 4 | in[2] >> 2);
+			out[2] = (unsigned char) (((in[2] << 6) & 0xc0) | in[3]);
+			outfile->Write(out, len - 1);
+		}
+
+	}
+
+}
+
diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d4f7f2b..9b65c2b 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -1,85 +1,85 @@
-/*
-    Tool1CD library provides access to 1CD database files.
-    Copyright © 2009-2017 awa
-    Copyright © 2017-2018 E8 Tools contributors
-
-    This file is part of Tool1CD Library.
-
-    Tool1CD Library is free software: you can redistribute it and/or modify
-    it under the terms of the GNU Lesser General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    Tool1CD Library is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU Lesser General Public License for more details.
-
-    You should have received a copy of the GNU Lesser General Public License
-    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
-*/
-#include "TempStream.h"
-#include <boost/filesystem.hpp>
-//---------------------------------------------------------------------------
-#if !defined(_WIN32)
-#pragma package(smart_init)
-#endif
-
-using namespace std;
-
-boost::filesystem::path TTempStream::tempcat;
-bool TTempStream::cleanup = true;
-TTempStreamStaticInit TempStreamStaticInit;
-
-static void DelayedInitTempPath()
-{
-	// у каждого процесса свой каталог: одновременно могут работать несколько
-	do {
-		TTempStream::tempcat = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%");
-	} while (!boost::filesystem::create_directory(TTempStream::tempcat));
-}
-
-//---------------------------------------------------------------------------
-TTempStreamStaticInit::TTempStreamStaticInit()
-{
-	if (!TTempStream::tempcat.empty()) {
-		return;
+/*
+    Tool1CD library provides access to 1CD database files.
+    Copyright © 2009-2017 awa
+    Copyright © 2017-2018 E8 Tools contributors
+
+    This file is part of Tool1CD Library.
+
+    Tool1CD Library is free software: you can redistribute it and/or modify
+    it under the terms of the GNU Lesser General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    Tool1CD Library is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU Lesser General Public License for more details.
+
+    You should have received a copy of the GNU Lesser General Public License
+    along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
+*/
+#include "TempStream.h"
+#include <boost/filesystem.hpp>
+//---------------------------------------------------------------------------
+#if !defined(_WIN32)
+#pragma package(smart_init)
+#endif
+
+using namespace std;
+
+boost::filesystem::path TTempStream::tempcat;
+bool TTempStream::cleanup = true;
+TTempStreamStaticInit TempStreamStaticInit;
+
+static void DelayedInitTempPath()
+{
+	// у каждого процесса свой каталог: одновременно могут работать несколько
+	do {
+		TTempStream::tempcat = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%");
+	} while (!boost::filesystem::create_directory(TTempStream::tempcat));
+}
+
+//---------------------------------------------------------------------------
+TTempStreamStaticInit::TTempStreamStaticInit()
+{
+	if (!TTempStream::tempcat.empty()) {
+		return;
+	}
+}
+
+//---------------------------------------------------------------------------
+TTempStreamStaticInit::~TTempStreamStaticInit()
+{
+	if (!TTempStream::cleanup || TTempStream::tempcat.empty()) {
+		return;
+	}
+	try {
+		boost::filesystem::remove_all(TTempStream::tempcat);
 	}
-}
-
-//---------------------------------------------------------------------------
-TTempStreamStaticInit::~TTempStreamStaticInit()
-{
-	if (!TTempStream::cleanup || TTempStream::tempcat.empty()) {
-		return;
-	}
-	try {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
-	catch (...) {
-
-	}
-}
-
-//---------------------------------------------------------------------------
-TTempStream::TTempStream() : TFileStream(get_temp_name(), fmCreate)
-{
-}
-
-//---------------------------------------------------------------------------
-TTempStream::~TTempStream()
-{
-}
-
-//---------------------------------------------------------------------------
-
-std::string TTempStream::get_temp_name()
-{
-	if (tempcat.empty()) {
-		DelayedInitTempPath();
-	}
-	return (tempcat / boost::filesystem::unique_path()).string();
-}
-
-//---------------------------------------------------------------------------
-
+	catch (...) {
+
+	}
+}
+
+//---------------------------------------------------------------------------
+TTempStream::TTempStream() : TFileStream(get_temp_name(), fmCreate)
+{
+}
+
+//---------------------------------------------------------------------------
+TTempStream::~TTempStream()
+{
+}
+
+//---------------------------------------------------------------------------
+
+std::string TTempStream::get_temp_name()
+{
+	if (tempcat.empty()) {
+		DelayedInitTempPath();
+	}
+	return (tempcat / boost::filesystem::unique_path()).string();
+}
+
+//---------------------------------------------------------------------------
+
-- 
2.43.0


From c0dcc149668886f4a4d9c19a951f6928357a6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 76/97] fix: make streams of container members behave like the
 other streams

Seek from the end went the wrong way and positions outside the member were
not refused, GetPosition always returned 0, and the overloads that take a
vector read into a copy of it and ignored the offset.
---
 src/tool1cd/cfapi/TV8FileStream.cpp | 63 +++++------------------------
 src/tool1cd/cfapi/TV8FileStream.h   |  6 +--
 src/tool1cd/cfapi/V8File.cpp        |  2 +-
 src/tool1cd/cfapi/V8File.h          |  2 +-
 4 files changed, 15 insertions(+), 58 deletions(-)

diff --git a/src/tool1cd/cfapi/TV8FileStream.cpp b/src/tool1cd/cfapi/TV8FileStream.cpp
index 3be2d65..565cf15 100644
--- a/src/tool1cd/cfapi/TV8FileStream.cpp
+++ b/src/tool1cd/cfapi/TV8FileStream.cpp
@@ -24,7 +24,6 @@ using namespace System;
 
 TV8FileStream::TV8FileStream(V8File* f, bool ownfile) : TStream(), file(f), own(ownfile)
 {
-	pos = 0l;
 	file->streams().insert(this);
 }
 
@@ -40,75 +39,35 @@ TV8FileStream::~TV8FileStream()
 // чтение буфера
 int64_t TV8FileStream::Read(void *Buffer, int64_t Count)
 {
-	int64_t r = file->read(Buffer, pos, Count);
-	pos += r;
+	int64_t r = file->read(Buffer, m_position, Count);
+	m_position += r;
 	return r;
 }
 
 //---------------------------------------------------------------------------
 // чтение буфера
-int TV8FileStream::Read(std::vector<uint8_t> Buffer, int Offset, int Count)
+int TV8FileStream::Read(std::vector<uint8_t> &Buffer, int Offset, int Count)
 {
-	int64_t r = file->read(Buffer, pos, Count);
-	pos += r;
-	return r;
+	if (Buffer.size() < (size_t)Offset + Count) {
+		Buffer.resize((size_t)Offset + Count);
+	}
+	return Read(Buffer.data() + Offset, (int64_t)Count);
 }
 
 //---------------------------------------------------------------------------
 // запись буфера
 int64_t TV8FileStream::Write(const void *Buffer, int64_t Count)
 {
-	int64_t r = file->write(Buffer, pos, Count);
-	pos += r;
+	int64_t r = file->write(Buffer, m_position, Count);
+	m_position += r;
 	return r;
 }
 
 //---------------------------------------------------------------------------
 // запись буфера
-int TV8FileStream::Write(const std::vector<uint8_t> Buffer, int Offset, int Count)
-{
-	int64_t r = file->write(Buffer, pos, Count);
-	pos += r;
-	return r;
-}
-
-//---------------------------------------------------------------------------
-// позиционирование
-int64_t TV8FileStream::Seek(const int64_t Offset, const TSeekOrigin Origin)
+int TV8FileStream::Write(const std::vector<uint8_t> &Buffer, int Offset, int Count)
 {
-	int64_t len = file->get_file_length();
-	switch(Origin)
-	{
-		case soFromBeginning:
-			if(Offset >= 0)	{
-				if(Offset <= len) {
-					pos = Offset;
-				}
-				else {
-					pos = len;
-				}
-			}
-			break;
-		case soFromCurrent:
-			if(pos + Offset < len) {
-				pos += Offset;
-			}
-			else {
-				pos = len;
-			}
-			break;
-		case soFromEnd:
-			if(Offset <= 0) {
-				if(Offset <= len) {
-					pos = len - Offset;
-				}
-				else {
-					pos = 0;
-				}
-			}
-			break;
-	}
-	return pos;
+	return Write(Buffer.data() + Offset, (int64_t)Count);
 }
 
 int64_t TV8FileStream::GetSize() const
diff --git a/src/tool1cd/cfapi/TV8FileStream.h b/src/tool1cd/cfapi/TV8FileStream.h
index bec8ed8..ce4205a 100644
--- a/src/tool1cd/cfapi/TV8FileStream.h
+++ b/src/tool1cd/cfapi/TV8FileStream.h
@@ -31,15 +31,13 @@ public:
 	TV8FileStream(V8File* f, bool ownfile = false);
 	virtual ~TV8FileStream();
 	virtual int64_t Read(void *Buffer, int64_t Count) override;
-	virtual int Read(std::vector<uint8_t> Buffer, int Offset, int Count);
+	virtual int Read(std::vector<uint8_t> &Buffer, int Offset, int Count);
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
-	virtual int Write(const std::vector<uint8_t> Buffer, int Offset, int Count);
-	virtual int64_t Seek(const int64_t Offset, const TSeekOrigin Origin) override;
+	virtual int Write(const std::vector<uint8_t> &Buffer, int Offset, int Count);
 	virtual int64_t GetSize() const override;
 protected:
 	V8File* file;
 	bool own;
-	int64_t pos;
 };
 
 #endif
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 347f9fd..f20c5a4 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -157,7 +157,7 @@ int64_t V8File::read(void* Buffer, int Start, int Length)
 
 //---------------------------------------------------------------------------
 // чтение
-int64_t V8File::read(std::vector<uint8_t> Buffer, int Start, int Length)
+int64_t V8File::read(std::vector<uint8_t> &Buffer, int Start, int Length)
 {
 	int64_t ret = 0l;
 	Lock->Acquire();
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index fe2e869..d304cc5 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -53,7 +53,7 @@ public:
 	int64_t get_file_length();
 
 	int64_t read(void* Buffer, int Start, int Length);
-	int64_t read(std::vector<uint8_t> Buffer, int Start, int Length);
+	int64_t read(std::vector<uint8_t> &Buffer, int Start, int Length);
 
 	int64_t write(const void* Buffer, int Start, int Length);                           // дозапись/перезапись частично
 	int64_t write(std::vector<uint8_t> Buffer, int Start, int Length); // дозапись/перезапись частично
-- 
2.43.0


From 0b7aa786fe356bfbf421e4455b0c5a383144dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 77/97] fix: an empty text entered for a number is a positive
 zero

---
 src/tool1cd/FieldType.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 2eccf4e..e86b059 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -466,11 +466,6 @@ uint32_t BinaryFieldType::get_sort_key(const char* rec, unsigned char* SortKey,
 
 bool NumericFieldType::get_binary_value(char *binary_value, const string &value) const
 {
-	int32_t l = value.size();
-	if(!l) {
-		return true;
-	}
-
 	BinaryDecimalNumber bdn(value, true, get_length(), get_precision());
 	bdn.write_to(binary_value);
 
-- 
2.43.0


From abf02c73e9199c44ed7b59f7088abbb4ca0c7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 78/97] fix: users' data with a mask of more than 127 bytes, or
 cut, are exported

---
 src/tool1cd/Field.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 0b85ce4..e62a450 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -289,11 +289,17 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			blob_stream->Seek(0, soFromBeginning);
 			blob_stream->Read(_bb, stream_size);
 
-			size_t xor_mask_size = _bb[0];
+			size_t xor_mask_size = static_cast<unsigned char>(_bb[0]);
 			char *_xor_mask = &_bb[1];
 			char *_xor_buf = &_xor_mask[xor_mask_size];
 			size_t data_size = stream_size - xor_mask_size - 1;
-			for(size_t i = 0, k = 0; i < data_size; i++, k++)
+			if (xor_mask_size >= stream_size) {
+				// маска не помещается в данные, сохраняем их как есть
+				xor_mask_size = 0;
+				_xor_buf = _bb;
+				data_size = stream_size;
+			}
+			for(size_t i = 0, k = 0; xor_mask_size != 0 && i < data_size; i++, k++)
 			{
 				if (k >= xor_mask_size) {
 					k = 0;
-- 
2.43.0


From 59de323ea22029c83ccd9f6da5ce106fe1edf13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 79/97] fix: an empty value is unpacked to an empty file

---
 src/tool1cd/Field.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index e62a450..0a017c6 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -358,16 +358,22 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				}
 			}
 
-			V8Catalog *cat = new V8Catalog(_sx2, zippedContainer, true);
-			if(!cat->get_first())
-			{
+			if (_sx2->GetSize() == 0) {
+				// каталог, созданный из пустого потока, записал бы в него заголовок
 				TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
-				temp_stream.CopyFrom(_sx2, 0);
 			}
 			else {
-				cat->SaveToDir(boost::filesystem::path(_filename));
+				V8Catalog *cat = new V8Catalog(_sx2, zippedContainer, true);
+				if(!cat->get_first())
+				{
+					TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
+					temp_stream.CopyFrom(_sx2, 0);
+				}
+				else {
+					cat->SaveToDir(boost::filesystem::path(_filename));
+				}
+				delete cat;
 			}
-			delete cat;
 			delete _sx2;
 
 		}
@@ -412,7 +418,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				else
 				{
 					_s->SetSize(0);
-					_s->CopyFrom(_s2, _s2->GetSize() - 8);
+					if (_s2->GetSize() > 8) { // 0 означает весь поток
+						_s->CopyFrom(_s2, _s2->GetSize() - 8);
+					}
 				}
 
 			}
@@ -432,7 +440,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 						if(len1C <= _s2->GetSize() - 12)
 						{
 							_s->SetSize(0);
-							_s->CopyFrom(_s2, len1C);
+							if (len1C != 0) {
+								_s->CopyFrom(_s2, len1C);
+							}
 						}
 					}
 				}
-- 
2.43.0


From 55fc3ca5916b9dcf29173b12e42f52d083518315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 80/97] fix: read indexes of more than 4 GB

---
 src/tool1cd/Table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 749e5ba..0320bac 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -145,7 +145,7 @@ void Table::init(int32_t block_descr)
 	Tree* f;
 	Tree* rt;
 	int32_t j;
-	uint32_t m;
+	uint64_t m;
 	uint64_t s;
 	int32_t blockfile[3];
 	uint32_t* buf;
@@ -365,7 +365,7 @@ void Table::init(int32_t block_descr)
 			buf = new uint32_t[num_indexes + 1];
 			file_index->get_data(buf, 0, buflen);
 
-			if(buf[0] * base->get_pagesize() >= file_index->get_len())
+			if((uint64_t)buf[0] * base->get_pagesize() >= file_index->get_len())
 			{
 				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
 					.add_detail("Таблица", name)
-- 
2.43.0


From c3f4e68a90943ee1295facae94f23ca8a2268c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 81/97] fix: read tables of more than 4 GB

---
 src/tool1cd/Table.cpp    | 8 ++++----
 src/tool1cd/V8Object.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 0320bac..8e4db50 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -445,7 +445,7 @@ void Table::init(int32_t block_descr)
 
 	if(file_data)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		if((uint64_t)phys_numrecords * recordlen != file_data->get_len())
 		{
 			throw DetailedException("Длина таблицы не кратна длине записи.")
 				.add_detail("Блок", to_hex_string(block_descr))
@@ -641,7 +641,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -651,7 +651,7 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	tr_syn->BeginWrite();
 	#endif
 	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	char* b = file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
@@ -1081,7 +1081,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 //---------------------------------------------------------------------------
 uint64_t Table::get_file_offset(uint32_t phys_numrecord)
 {
-	uint32_t _offset = phys_numrecord * recordlen;
+	uint64_t _offset = (uint64_t)phys_numrecord * recordlen;
 	return file_data->get_fileoffset(_offset);
 }
 
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index f0ef28e..b8a3c45 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -613,7 +613,7 @@ void V8Object::savetofile(const boost::filesystem::path &path)
 //---------------------------------------------------------------------------
 uint64_t V8Object::get_fileoffset(uint64_t offset)
 {
-	uint32_t _start = offset;
+	uint64_t _start = offset;
 	objtab* b;
 	objtab838* bb;
 	uint32_t curblock;
-- 
2.43.0


From d93077e0c2f9443acfdec28f8e6164adb89d1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 82/97] fix: read long values from stores of more than 4 GB

---
 src/tool1cd/Table.cpp    | 8 ++++----
 src/tool1cd/V8Object.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 8e4db50..9df78e4 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -734,7 +734,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -776,7 +776,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -817,7 +817,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -858,7 +858,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index b8a3c45..04aeb07 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1527,7 +1527,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 {
 	uint32_t _curblock;
 	char* _curb;
-	uint32_t _numblock;
+	uint64_t _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -1566,7 +1566,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, (uint64_t)_curblock << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
-- 
2.43.0


From 003e5d4a93f44586d390f52094d5a2019a02f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 83/97] fix: report sizes of objects of more than 2 GB

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index d3ae2af..67a855b 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -46,7 +46,7 @@ const string DATABASE_CONFIG_DEFAULT_NAME() {
 	return string("dbcf") + CF_STR;
 }
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
-- 
2.43.0


From ee2912f3de53d65965c2e39f9db2c1d18c82814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 84/97] fix: free the data of table records

---
 src/tool1cd/TableRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 839e42c..59ba2e4 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -61,7 +61,7 @@ TableRecord::TableRecord(const TableRecord &another)
 TableRecord::~TableRecord()
 {
 	if (data) {
-		// delete[] data; // TODO: утечка данных
+		delete[] data;
 		data = nullptr;
 	}
 }
-- 
2.43.0


From e2f5a37ea4317a794bc2c5bfad3778243c1a0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 85/97] fix: save the members of a container below its own
 directory

---
 src/tool1cd/Common.cpp          | 30 ++++++++++++++++++++++++++++++
 src/tool1cd/Common.h            |  3 +++
 src/tool1cd/Table.cpp           | 20 --------------------
 src/tool1cd/cfapi/V8Catalog.cpp |  7 +++++--
 4 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 9948336..b3b7ae2 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -22,6 +22,8 @@
 #include "Common.h"
 #include "MessageRegistration.h"
 #include "BinaryDecimalNumber.h"
+#include "SystemClasses/String.hpp"
+#include <cstring>
 //---------------------------------------------------------------------------
 #if !defined(_WIN32)
 #pragma package(smart_init)
@@ -167,6 +169,34 @@ std::string toXML(const std::string &in)
 	return result;
 }
 
+//---------------------------------------------------------------------------
+// имя из базы данных как имя файла: без разделителей и других недопустимых символов
+std::string safe_file_name(const std::string &name)
+{
+	string result(name);
+	for (char &c : result) {
+		if (static_cast<unsigned char>(c) < ' ' || strchr("\"*/:<>?\\|", c)) {
+			c = '_';
+		}
+	}
+	if (result.empty() || result == "." || result == "..") {
+		result += "_";
+	}
+	return result;
+}
+
+//---------------------------------------------------------------------------
+// имя файла, допустимое в файловой системе и отличное от всех уже использованных
+std::string unique_file_name(const std::string &wanted, std::set<std::string> &used)
+{
+	string file_name = safe_file_name(wanted);
+	string result = file_name;
+	for (int n = 2; !used.insert(LowerCase(result)).second; n++) {
+		result = file_name + "_" + to_string(n);
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 unsigned char from_hex_digit(char digit)
 {
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 0002089..832856f 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -25,6 +25,7 @@
 #include "SystemClasses/TStream.hpp"
 #include "SystemClasses/System.hpp"
 #include <boost/filesystem.hpp>
+#include <set>
 #include <sstream>
 #include <iomanip>
 
@@ -38,6 +39,8 @@ std::string date_to_string(const void *bytedate);
 std::string hexstring(const char *buf, int n);
 std::string hexstring(TStream *str);
 std::string toXML(const std::string &in);
+std::string safe_file_name(const std::string &name);
+std::string unique_file_name(const std::string &wanted, std::set<std::string> &used);
 unsigned char from_hex_digit(char digit);
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 9df78e4..dd4f091 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -894,26 +894,6 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	return readed;
 }
 
-//---------------------------------------------------------------------------
-// имя файла, допустимое в файловой системе и отличное от всех уже использованных
-static string unique_file_name(const string &wanted, std::set<string> &used)
-{
-	string file_name = wanted;
-	for (char &c : file_name) {
-		if (static_cast<unsigned char>(c) < ' ' || strchr("\"*/:<>?\\|", c)) {
-			c = '_';
-		}
-	}
-	if (file_name == "." || file_name == "..") {
-		file_name += "_";
-	}
-	string result = file_name;
-	for (int n = 2; !used.insert(LowerCase(result)).second; n++) {
-		result = file_name + "_" + to_string(n);
-	}
-	return result;
-}
-
 //---------------------------------------------------------------------------
 bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool unpack) const
 {
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 1806122..183144a 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -811,13 +811,16 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 	}
 	Lock->Acquire();
 	V8File* f = first;
+	std::set<string> used;
 	while(f)
 	{
+		// имя файла контейнера не должно выводить за пределы каталога
+		boost::filesystem::path file_path = dir / unique_file_name(f->get_file_name(), used);
 		if(f->is_catalog()) {
-			f->get_catalog()->SaveToDir(dir / f->get_file_name());
+			f->get_catalog()->SaveToDir(file_path);
 		}
 		else {
-			f->save_to_file(dir / f->get_file_name());
+			f->save_to_file(file_path);
 		}
 		f->close();
 		f = f->get_next();
-- 
2.43.0


From 78d0e47a76a2a6afea4fae695a6da7e1ed87fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 86/97] fix: save external files of a repository below the
 destination

---
 src/tool1cd/save_part_depot_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 85ac028..9085ea4 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -441,10 +441,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 												cat = new V8Catalog(out, false, true);
 												iscatalog = cat->is_catalog();
 											}
-											if(iscatalog) cat->SaveToDir((cath / ext_name).string());
+											if(iscatalog) cat->SaveToDir(cath / safe_file_name(ext_name));
 											else
 											{
-												TFileStream f(cath / ext_name, fmCreate);
+												TFileStream f(cath / safe_file_name(ext_name), fmCreate);
 												f.CopyFrom(out, 0);
 											}
 											delete cat;
-- 
2.43.0


From 03574200aa6df04f884b0566dad094a2e3bde26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 87/97] fix: export and import tables below the given directory

---
 src/ctool1cd/App.cpp  | 4 ++--
 src/tool1cd/Table.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 67a855b..948d039 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -96,7 +96,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 
 		tbl->fill_records_index();
 
-		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+		boost::filesystem::path filetable = root_path / (safe_file_name(tbl->get_name()) + ".xml");
 
 		tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 
@@ -162,7 +162,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		if (b) {
 			tbl->fill_records_index();
 
-			boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+			boost::filesystem::path filetable = root_path / (safe_file_name(tbl->get_name()) + ".xml");
 			tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 				.with("Таблица", tbl->get_name())
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index dd4f091..dbde55f 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1115,7 +1115,7 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 //---------------------------------------------------------------------------
 void Table::export_table(const boost::filesystem::path &path) const
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / safe_file_name(name);
 	if(!directory_exists(dir, true)) {
 		return;
 	}
@@ -1191,7 +1191,7 @@ void check_import_files(const boost::filesystem::path &dir, const export_import_
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / safe_file_name(name);
 
 	if(!directory_exists(dir)) {
 		return;
-- 
2.43.0


From 5bb5b6d9ab5b37f9633b35145b24e64676fec4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 88/97] fix: save every supplier configuration to a file of its
 own

---
 src/ctool1cd/App.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 948d039..6fa985c 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -369,8 +369,9 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 		return;
 	}
 
+	std::set<string> used;
 	for (auto& supplier_config : base1CD->supplier_configs()) {
-		string file_name = supplier_config->name() + " " + supplier_config->version() + CF_STR;
+		string file_name = unique_file_name(supplier_config->name() + " " + supplier_config->version(), used) + CF_STR;
 		boost::filesystem::path cfpath = param_path / file_name;
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
-- 
2.43.0


From 44ab914e58c17f1d73544ecd5fde2342caf47710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:45 +0000
Subject: [PATCH 89/97] fix: never delete a directory given as the log file

---
 src/tool1cd/SystemClasses/System.IOUtils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/System.IOUtils.cpp b/src/tool1cd/SystemClasses/System.IOUtils.cpp
index 7f268d0..c91fd58 100644
--- a/src/tool1cd/SystemClasses/System.IOUtils.cpp
+++ b/src/tool1cd/SystemClasses/System.IOUtils.cpp
@@ -38,7 +38,10 @@ bool FileExists(const std::string &filename)
 
 void DeleteFile(const std::string &filename)
 {
-	boost::filesystem::remove_all(filename);
+	// удаляется только файл, каталог с его содержимым остается
+	if (!boost::filesystem::is_directory(filename)) {
+		boost::filesystem::remove(filename);
+	}
 }
 
 void RemoveDir(const std::string &dirname)
-- 
2.43.0


From 9525dd73fcfca70cdaea6c92cd33ffb4cbe8f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:51 +0000
Subject: [PATCH 90/97] fix: report a database that cannot be opened

---
 src/ctool1cd/App.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 6fa985c..3f704c2 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -612,6 +612,10 @@ int App::Run()
 	} catch (DetailedException &ex) {
 		ex.show();
 		return CTOOL_1CD_FILE_NOT_OPEN;
+	} catch (std::exception &ex) {
+		msreg_g.AddMessage("Ошибка открытия базы", MessageState::Error)
+				.with("Ошибка", string(ex.what()));
+		return CTOOL_1CD_FILE_NOT_OPEN;
 	}
 
 	if (base1CD->is_open()) {
-- 
2.43.0


From 87ec50ff628e33acfe5f36c2d42ca481eebfe916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:51 +0000
Subject: [PATCH 91/97] fix: check the list of tables of a database

---
 src/tool1cd/Class_1CD.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index c546b2a..49429e9 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -237,6 +237,23 @@ T_1CD::T_1CD(const boost::filesystem::path &_filename, MessageRegistrator *mess,
 	open(_filename, _monopoly);
 }
 
+//---------------------------------------------------------------------------
+// Проверка корневого объекта: язык базы, количество таблиц и список блоков таблиц
+// должны находиться в пределах прочитанных данных
+static void check_root(const char *data, uint64_t size, size_t lang_size)
+{
+	const uint64_t header_size = lang_size + sizeof(int32_t);
+	int32_t numblocks = -1;
+	if (data && size >= header_size && memchr(data, 0, lang_size)) {
+		memcpy(&numblocks, data + lang_size, sizeof(numblocks));
+	}
+	if (numblocks < 0 || static_cast<uint64_t>(numblocks) * sizeof(uint32_t) > size - header_size) {
+		throw DetailedException("Ошибка чтения корневого объекта базы.")
+				.add_detail("Длина корневого объекта", size)
+				.add_detail("Количество таблиц", numblocks);
+	}
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 {
@@ -344,6 +361,7 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 	if(version == db_ver::ver8_0_3_0 || version == db_ver::ver8_0_5_0)
 	{
 		root80 = (root_80*)root_object->get_data();
+		check_root((char*)root80, root_object->get_len(), sizeof(root_80::lang));
 
 		locale = new char[strlen(root80->lang) + 1];
 
@@ -365,10 +383,12 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 			b = new char[tstr->GetSize()];
 			memcpy(b, tstr->GetMemory(), tstr->GetSize());
 			root81 = (root_81*)b;
+			check_root(b, tstr->GetSize(), sizeof(root_81::lang));
 		}
 		else
 		{
 			root81 = (root_81*)root_object->get_data();
+			check_root((char*)root81, root_object->get_len(), sizeof(root_81::lang));
 		}
 
 		locale = new char[strlen(root81->lang) + 1];
-- 
2.43.0


From 4fadd13469bd8cb56174d3268dfc79a0fed32d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:51 +0000
Subject: [PATCH 92/97] fix: check the pages of an index

---
 src/tool1cd/Index.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 7881b6d..2a3f749 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -85,7 +85,6 @@ uint32_t Index::get_numrec(uint32_t num_record) const
 //---------------------------------------------------------------------------
 void Index::create_recordsindex() const
 {
-	char* buf;
 	int32_t curlen;
 	uint64_t curblock;
 	uint32_t mask;
@@ -95,7 +94,8 @@ void Index::create_recordsindex() const
 
 	msreg_g.Status("Чтение индекса ");
 
-	buf = new char[pagesize];
+	std::vector<char> page(pagesize + sizeof(uint32_t)); // последняя запись страницы может быть короче 4 байт
+	char* buf = page.data();
 
 	file_index = tbase->get_file_index();
 	file_index->get_data(buf, start, 8);
@@ -112,8 +112,16 @@ void Index::create_recordsindex() const
 	{
 		recordsindex.resize(tbase->get_file_data()->get_len() / tbase->get_recordlen());
 		bool is_leaf = buf[0] & 0x2;
+		// каждая страница индекса читается не более одного раза
+		uint64_t pages_left = file_index->get_len() / pagesize;
 		while(!is_leaf)
 		{
+			if(pages_left-- == 0 || length > pagesize - 20)
+			{
+				throw DetailedException("Ошибка чтения индекса. Неверная структура страниц индекса")
+					.add_detail("Таблица", tbase->get_name())
+					.add_detail("Индекс", name);
+			}
 			curblock = *(uint32_t*)(buf + 16 + length);
 			curblock = 	reverse_byte_order(curblock);
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
@@ -129,6 +137,16 @@ void Index::create_recordsindex() const
 			curblock = *(uint32_t*)(buf + 8);
 			mask = *(uint32_t*)(buf + 14);
 			int32_t rlen = *(int16_t*)(buf + 28);
+			if(pages_left-- == 0
+				|| curlen < 0
+				|| static_cast<uint64_t>(curlen) > recordsindex.size() - curindex
+				|| rlen < 0
+				|| static_cast<int64_t>(curlen) * rlen + 30 > pagesize)
+			{
+				throw DetailedException("Ошибка чтения индекса. Неверная структура страниц индекса")
+					.add_detail("Таблица", tbase->get_name())
+					.add_detail("Индекс", name);
+			}
 			char *rbuf = buf + 30;
 			for (int32_t i = 0; i < curlen; i++)
 			{
@@ -146,7 +164,6 @@ void Index::create_recordsindex() const
 	}
 
 	recordsindex_complete = true;
-	delete[] buf;
 	tbase->set_log_numrecords(recordsindex.size());
 	msreg_g.Status("");
 }
-- 
2.43.0


From 6bf4dcba7988ed9a4a92158adb392eed5bb3ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:56 +0000
Subject: [PATCH 93/97] fix: check the part numbers of files

---
 src/tool1cd/TableFiles.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index 2bf5d5f..965428e 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -103,6 +103,13 @@ TableFiles::TableFiles(Table* t)
 
 		if(partno) tr.partno = ToIntDef(record->get_string(partno), 0);
 		else tr.partno = 0;
+		// каждая часть файла хранится в своей записи
+		if(tr.partno < 0 || static_cast<uint32_t>(tr.partno) >= table->get_phys_numrecords()) {
+			throw DetailedException("Ошибка чтения таблицы контейнера файлов. Неверный номер части файла")
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Файл", tr.name)
+				.add_detail("Номер части", tr.partno);
+		}
 		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create));
 		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify));
 
-- 
2.43.0


From ec793f2858aaf5e46c4c95911002e91e469f36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 94/97] fix: check the chains of blocks of a container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 183144a..c649b96 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -24,6 +24,7 @@
 #include "V8Catalog.h"
 #include "../UZLib.h"
 #include "../Common.h"
+#include "../DetailedException.h"
 #include "../SystemClasses/String.hpp"
 
 using namespace std;
@@ -61,13 +62,20 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	if(readlen) {
+	if(readlen > 0) {
 		stream_to->CopyFrom(stream_from, readlen);
 	}
 
 	int32_t pos = readlen;
 
+	// блоки не пересекаются, поэтому их количество ограничено размером потока
+	int64_t blocks_left = stream_from->GetSize() / stBlockHeader::size();
+
 	while(start != LAST_BLOCK) {
+		if(blocks_left-- <= 0) {
+			throw DetailedException("Ошибка чтения контейнера. Цепочка блоков зациклена")
+				.add_detail("Адрес блока", start);
+		}
 		stream_from->Seek(start, soFromBeginning);
 		stream_from->Read(&block_header, block_header.size());
 
@@ -76,7 +84,7 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		if(readlen) {
+		if(readlen > 0) {
 			stream_to->CopyFrom(stream_from, readlen);
 		}
 		pos += readlen;
@@ -377,7 +385,7 @@ void V8Catalog::initialize()
 
 	}
 
-	last = _prev;
+	last = first ? _prev : nullptr;
 
 	_fatmodified = false;
 	is_emptymodified = false;
-- 
2.43.0


From 78a7b2ce941b050590f16b0b501752c3c2520fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:43 +0000
Subject: [PATCH 95/97] fix: do not look for a container beyond the end of a
 file

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 src/tool1cd/cfapi/V8File.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index c649b96..ed3889a 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -132,7 +132,7 @@ bool V8Catalog::is_catalog() const
 	data->Seek(0, soFromBeginning);
 	data->Read(&_startempty, 4);
 	if(_startempty != LAST_BLOCK){
-		if(_startempty + 31 >= _filelen)
+		if((int64_t)_startempty + 31 >= _filelen)
 		{
 			Lock->Release();
 			return false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index f20c5a4..f1ff419 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -355,7 +355,7 @@ bool V8File::is_catalog()
 		data->Seek(0, soFromBeginning);
 		data->Read(&_startempty, 4);
 		if(_startempty != LAST_BLOCK){
-			if(_startempty + 31 >= _filelen){
+			if((int64_t)_startempty + 31 >= _filelen){
 				iscatalog = FileIsCatalog::no;
 				Lock->Release();
 				return false;
-- 
2.43.0


From c87e021cd4a75fd8bd622895deaae35685e9b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:39 +0000
Subject: [PATCH 96/97] fix: report what cannot be read of a container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 64 +++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index ed3889a..8f6f795 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -30,31 +30,65 @@
 using namespace std;
 using namespace System;
 
+//---------------------------------------------------------------------------
+// читает заголовок блока, проверяя, что он находится в пределах потока
+static stBlockHeader read_block_header(TStream* stream_from, int start)
+{
+	stBlockHeader block_header;
+
+	if(start < 0 || start + (int64_t)stBlockHeader::size() > stream_from->GetSize()) {
+		throw DetailedException("Ошибка чтения контейнера. Блок за пределами контейнера")
+			.add_detail("Адрес блока", start);
+	}
+	stream_from->Seek(start, soFromBeginning);
+	stream_from->Read(&block_header, stBlockHeader::size());
+	if(block_header.get_data_size() < 0 || block_header.get_page_size() < 0) {
+		throw DetailedException("Ошибка чтения контейнера. Неверный размер блока")
+			.add_detail("Адрес блока", start);
+	}
+	return block_header;
+}
+
+//---------------------------------------------------------------------------
+// копирует часть блока с текущей позиции
+static void copy_block(TStream* stream_from, TStream* stream_to, int32_t readlen)
+{
+	if(readlen <= 0) {
+		return;
+	}
+	if(readlen > stream_from->GetSize() - stream_from->GetPosition()) {
+		throw DetailedException("Ошибка чтения контейнера. Данные блока за пределами контейнера")
+			.add_detail("Длина", readlen);
+	}
+	stream_to->CopyFrom(stream_from, readlen);
+}
+
 //---------------------------------------------------------------------------
 // читает блок из потока каталога stream_from, собирая его по страницам
 TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullptr)
 {
-	stBlockHeader block_header;
+	std::unique_ptr<TStream> own_stream;
 
 	if(!stream_to) {
-		stream_to = new TMemoryStream;
+		own_stream.reset(new TMemoryStream);
+		stream_to = own_stream.get();
 	}
 
 	stream_to->Seek(0, soFromBeginning);
 	stream_to->SetSize(0);
 
 	if( start < 0
-			|| start == LAST_BLOCK
-			|| start > stream_from->GetSize() ) {
+			|| start == LAST_BLOCK ) {
+		own_stream.release();
 		return stream_to;
 	}
 
-	stream_from->Seek(start, soFromBeginning);
-	stream_from->Read(&block_header, stBlockHeader::size());
+	stBlockHeader block_header = read_block_header(stream_from, start);
 
 	int32_t len = block_header.get_data_size();
 
 	if(len == 0) {
+		own_stream.release();
 		return stream_to;
 	}
 
@@ -62,9 +96,7 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	if(readlen > 0) {
-		stream_to->CopyFrom(stream_from, readlen);
-	}
+	copy_block(stream_from, stream_to, readlen);
 
 	int32_t pos = readlen;
 
@@ -76,20 +108,24 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 			throw DetailedException("Ошибка чтения контейнера. Цепочка блоков зациклена")
 				.add_detail("Адрес блока", start);
 		}
-		stream_from->Seek(start, soFromBeginning);
-		stream_from->Read(&block_header, block_header.size());
+		block_header = read_block_header(stream_from, start);
 
 		curlen = block_header.get_page_size();
 
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		if(readlen > 0) {
-			stream_to->CopyFrom(stream_from, readlen);
-		}
+		copy_block(stream_from, stream_to, readlen);
 		pos += readlen;
 	}
 
+	if(pos < len) {
+		throw DetailedException("Ошибка чтения контейнера. Блоки содержат меньше данных, чем указано")
+			.add_detail("Длина", len)
+			.add_detail("Прочитано", pos);
+	}
+
+	own_stream.release();
 	return stream_to;
 
 }
-- 
2.43.0


From dcacf63d62427ecc5bd3c97c44260bbf0f94f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:29 +0000
Subject: [PATCH 97/97] fix: check the lists of pages of an object

---
 src/tool1cd/V8Object.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 04aeb07..36a67d0 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -359,7 +359,7 @@ char* V8Object::get_data()
 		for(i = 0; i < numblocks; i++)
 		{
 			b = (objtab*)base->get_block(blocks[i]);
-			for(j = 0; j < b->numblocks; j++)
+			for(j = 0; j < std::min(b->numblocks, 1023); j++)
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
@@ -369,6 +369,14 @@ char* V8Object::get_data()
 			}
 			if(!l) break;
 		}
+		if(l)
+		{
+			delete[] data;
+			data = nullptr;
+			throw DetailedException("Таблицы размещения объекта содержат меньше страниц, чем занимает объект")
+				.add_detail("Блок", to_hex_string(block))
+				.add_detail("Длина объекта", len);
+		}
 	}
 	else if(type == v8objtype::data838)
 	{
@@ -1450,6 +1458,11 @@ std::vector<uint32_t> V8Object::get_pages() const
 	}
 	else if (type == v8objtype::free80) {
 		for (uint64_t i = 0; i < len; i++) {
+			if ((i >> 10) >= blocks.size()) {
+				throw DetailedException("Длина таблицы свободных блоков больше допустимой.")
+					.add_detail("Длина", len)
+					.add_detail("Количество блоков", blocks.size());
+			}
 			add_page(((uint32_t*)base->get_block(blocks[i >> 10]))[i & 0x3ff]);
 		}
 	}
-- 
2.43.0

