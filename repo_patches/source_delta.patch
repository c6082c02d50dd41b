From 4913679591cc09e715c1e6893371cdcab042208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 001/160] fix: Vfs path lookups through a file yield nothing
 instead of terminating

---
 src/Vfs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..bc9ceb8 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -183,6 +183,9 @@ namespace zenkit {
 				continue;
 			}
 
+			// Files don't have any children.
+			if (context->type() != VfsNodeType::DIRECTORY) return nullptr;
+
 			auto name = path.substr(0, next);
 			context = context->child(name);
 
@@ -533,7 +536,7 @@ namespace zenkit {
 		auto childName = path.substr(lastSlash + 1);
 
 		VfsNode* pNode = this->resolve(parentPath);
-		if (pNode == nullptr) return false;
+		if (pNode == nullptr || pNode->type() != VfsNodeType::DIRECTORY) return false;
 		return pNode->remove(childName);
 	}
 
-- 
2.43.0


From fc2af6136a8fd73b2aa13030ea4d9a52686208d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:44 +0000
Subject: [PATCH 002/160] fix: Vfs::save writes the real archive size into the
 header

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index bc9ceb8..e719274 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -395,7 +395,7 @@ namespace zenkit {
 		w->write_uint(index);
 		w->write_uint(files);
 		w->write_uint(unix_t == 0 ? vfs_unix_to_dos_time(time(nullptr)) : vfs_unix_to_dos_time(unix_t));
-		w->write_uint(off + catalog.size());
+		w->write_uint(off);
 		w->write_uint(header_size);
 #ifdef _ZK_WITH_ZIPPED_VDF
 		w->write_uint(compressed ? VFS_VOLUME_FLAG_ZIPPED : VFS_VOLUME_FLAG_NORMAL);
-- 
2.43.0


From b8396cb76f287ff30c5a42c22325f94018b75227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:44 +0000
Subject: [PATCH 003/160] fix: Vfs::save stores local time, which is what
 mounting an archive expects

---
 src/Vfs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index e719274..fd12c70 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -238,7 +238,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *gmtime(&unix_);
+		tm t = *localtime(&unix_);
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
@@ -430,6 +430,7 @@ namespace zenkit {
 		t.tm_hour = static_cast<int32_t>((dos >> 11) & 0x1F);
 		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
 		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
+		t.tm_isdst = -1;
 
 		return mktime(&t);
 	}
-- 
2.43.0


From 99dafd5b3e78d867ba6718286712c94018cbbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:13 +0000
Subject: [PATCH 004/160] fix: bound the catalog of disk archives when mounting
 (wrapping extents, missing end marks, cycles)

---
 src/Vfs.cc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index fd12c70..6599ecd 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -31,6 +31,9 @@ namespace zenkit {
 	static constexpr uint32_t VFS_VOLUME_FLAG_NORMAL = 0x50; ///< 80 — file data is stored uncompressed
 	static constexpr uint32_t VFS_VOLUME_FLAG_ZIPPED = 0xA0; ///< 160 — file data is stored as ZippedStream blocks
 
+	/// The size of a catalog entry: name, offset, size, type and attributes.
+	static constexpr std::size_t VFS_ENTRY_SIZE = 64 + 4 * 4;
+
 	VfsBrokenDiskError::VfsBrokenDiskError(std::string const& signature)
 	    : Error("VFS disk signature not recognized: \"" + signature + "\"") {}
 
@@ -628,8 +631,14 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
+		// The entry lists of all directories currently being loaded.
+		std::vector<std::uint64_t> open;
+
 		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		    [&load_entry, &open, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+			    // The entry list ends with the file if its last entry is not marked.
+			    if (r->tell() + VFS_ENTRY_SIZE > size) return true;
+
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -685,15 +694,28 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
+				    auto list_offset = catalog_offset + static_cast<std::uint64_t>(e_offset) * VFS_ENTRY_SIZE;
+
+				    // Directories without entries refer to a list outside the catalog.
+				    if (list_offset + VFS_ENTRY_SIZE > size) return last;
+
+				    // A directory can't contain itself.
+				    if (std::find(open.begin(), open.end(), list_offset) != open.end()) {
+					    ZKLOGW("Vfs", "Ignoring contents of \"%s\": directory contains itself", e_name.c_str());
+					    return last;
+				    }
+
+				    open.push_back(list_offset);
+				    r->seek(static_cast<ssize_t>(list_offset), Whence::BEG);
 				    while (!load_entry(existing))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
+				    open.pop_back();
 			    } else {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
@@ -731,6 +753,10 @@ namespace zenkit {
 			    return last;
 		    };
 
+		// An archive without any entries does not have a catalog.
+		if (static_cast<std::uint64_t>(catalog_offset) + VFS_ENTRY_SIZE > size) return;
+
+		open.push_back(catalog_offset);
 		r->seek(catalog_offset, Whence::BEG);
 		while (!load_entry(&_m_root))
 			;
-- 
2.43.0


From c9f95b2848e357b79c3fc2283a9464818e2f647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:13 +0000
Subject: [PATCH 005/160] fix: directories without entries survive saving a Vfs
 as disk archive

---
 src/Vfs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 6599ecd..e71e2ab 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -34,6 +34,10 @@ namespace zenkit {
 	/// The size of a catalog entry: name, offset, size, type and attributes.
 	static constexpr std::size_t VFS_ENTRY_SIZE = 64 + 4 * 4;
 
+	/// The catalog index written for directories which don't have any entries. Since the end of an entry list is marked by
+	/// its last entry, an empty list cannot be stored, so the index refers to an entry outside the catalog.
+	static constexpr uint32_t VFS_EMPTY_DIRECTORY = 0xFFFFFFFF;
+
 	VfsBrokenDiskError::VfsBrokenDiskError(std::string const& signature)
 	    : Error("VFS disk signature not recognized: \"" + signature + "\"") {}
 
@@ -378,7 +382,7 @@ namespace zenkit {
 			for (auto [off, dir] : dirs) {
 				auto here = static_cast<ssize_t>(write_catalog->tell());
 				write_catalog->seek(off, Whence::BEG);
-				write_catalog->write_uint(index);
+				write_catalog->write_uint(dir->children().empty() ? VFS_EMPTY_DIRECTORY : index);
 				write_catalog->seek(here, Whence::BEG);
 
 				write_node(dir);
-- 
2.43.0


From bbb41b726564e8f6083f796f163d4a036adb3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 006/160] fix: detect failed memory mappings and map empty
 files

---
 src/MmapPosix.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..f094575 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,16 +17,24 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
-		_m_data =
-		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
-			throw std::runtime_error {"Failed to mmap " + path.string()};
+		_m_data = nullptr;
+		_m_size = static_cast<std::size_t>(st.st_size);
+
+		// Empty files can't be mapped.
+		if (_m_size != 0) {
+			auto* data = mmap(nullptr, _m_size, PROT_READ, MAP_SHARED, handle, 0);
+			if (data == MAP_FAILED) {
+				close(handle);
+				throw std::runtime_error {"Failed to mmap " + path.string()};
+			}
+
+			_m_data = static_cast<std::byte*>(data);
 		}
 
-		_m_size = static_cast<std::size_t>(st.st_size);
 		_m_platform_handle = (void*) _m_data;
 
 		close(handle);
-- 
2.43.0


From ed05c8465e9f2ea057c2cc58aee04852f873088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 007/160] fix: Vfs::mount_host mounts empty files

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index e71e2ab..9e35205 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -563,7 +563,7 @@ namespace zenkit {
 				    if (ref.is_directory()) {
 					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
 					    load_directory(newP, path);
-				    } else if (ref.file_size() > 0) {
+				    } else if (ref.is_regular_file()) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
-- 
2.43.0


From 7c14874e69e41f2934c1e1bc556840e8da20ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 008/160] fix: Vfs::mount_host stores modification times as
 Unix time

---
 src/Vfs.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 9e35205..76fdcbd 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -548,6 +548,15 @@ namespace zenkit {
 		return pNode->remove(childName);
 	}
 
+	static std::time_t vfs_file_to_unix_time(std::filesystem::file_time_type time) {
+#ifdef _MSC_VER
+		auto sys = std::chrono::clock_cast<std::chrono::system_clock>(time);
+#else
+		auto sys = std::chrono::file_clock::to_sys(time);
+#endif
+		return std::chrono::floor<std::chrono::seconds>(sys.time_since_epoch()).count();
+	}
+
 	void Vfs::mount_host(std::filesystem::path const& sourcePath,
 	                     std::string_view mountPoint,
 	                     VfsOverwriteBehavior overwrite) {
@@ -557,18 +566,17 @@ namespace zenkit {
 		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
-				    auto time =
-				        std::chrono::duration_cast<std::chrono::seconds>(ref.last_write_time().time_since_epoch());
+				    auto time = vfs_file_to_unix_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
+					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
 				    } else if (ref.is_regular_file()) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time.count()));
+					                                 time));
 #else
 					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
 					    auto size = stream.tellg();
@@ -579,7 +587,7 @@ namespace zenkit {
 
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time.count()));
+					                                 time));
 #endif
 				    }
 			    }
-- 
2.43.0


From f9c8147ec4422e764a3c0b6ecd988584bd51bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 009/160] fix: Vfs::mount_host accepts a single file as
 documented

---
 src/Vfs.cc | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 76fdcbd..d788c27 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -562,38 +562,44 @@ namespace zenkit {
 	                     VfsOverwriteBehavior overwrite) {
 		auto root = VfsNode::directory(sourcePath.filename().string());
 
-		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory =
-		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
-			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
-				    auto const& path = ref.path();
-				    auto time = vfs_file_to_unix_time(ref.last_write_time());
-
-				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
-					    load_directory(newP, path);
-				    } else if (ref.is_regular_file()) {
+		std::function<void(VfsNode*, std::filesystem::directory_entry const&)> load_entry =
+		    [this, &load_entry](VfsNode* parent, std::filesystem::directory_entry const& ref) {
+			    auto const& path = ref.path();
+			    auto time = vfs_file_to_unix_time(ref.last_write_time());
+
+			    if (ref.is_directory()) {
+				    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
+				    for (auto const& child : std::filesystem::directory_iterator(path)) {
+					    load_entry(newP, child);
+				    }
+			    } else if (ref.is_regular_file()) {
 #ifdef _ZK_WITH_MMAP
-					    auto& mem = this->_m_data_mapped.emplace_back(path);
-					    parent->create(VfsNode::file(path.filename().string(),
-					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time));
+				    auto& mem = this->_m_data_mapped.emplace_back(path);
+				    parent->create(VfsNode::file(path.filename().string(),
+				                                 VfsFileDescriptor {mem.data(), mem.size(), false},
+				                                 time));
 #else
-					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
-					    auto size = stream.tellg();
-					    stream.seekg(0);
+				    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
+				    auto size = stream.tellg();
+				    stream.seekg(0);
 
-					    auto& data = _m_data.emplace_back(new std::byte[(size_t) size]);
-					    stream.read((char*) data.get(), size);
+				    auto& data = _m_data.emplace_back(new std::byte[(size_t) size]);
+				    stream.read((char*) data.get(), size);
 
-					    parent->create(VfsNode::file(path.filename().string(),
-					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time));
+				    parent->create(VfsNode::file(path.filename().string(),
+				                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
+				                                 time));
 #endif
-				    }
 			    }
 		    };
 
-		load_directory(&root, sourcePath);
+		if (std::filesystem::is_directory(sourcePath)) {
+			for (auto const& child : std::filesystem::directory_iterator(sourcePath)) {
+				load_entry(&root, child);
+			}
+		} else {
+			load_entry(&root, std::filesystem::directory_entry {sourcePath});
+		}
 
 		for (auto& child : root.children()) {
 			this->mount(child, mountPoint, overwrite);
-- 
2.43.0


From d58864bfdb94da7faf07b3588aeac6ffedb7e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 010/160] fix: archive headers keep their size when they are
 rewritten

---
 src/archive/ArchiveAscii.cc   | 25 +++++++++++++++----------
 src/archive/ArchiveAscii.hh   |  1 +
 src/archive/ArchiveBinary.cc  | 25 +++++++++++++++----------
 src/archive/ArchiveBinary.hh  |  1 +
 src/archive/ArchiveBinsafe.cc | 16 ++++++++++------
 src/archive/ArchiveBinsafe.hh |  1 +
 6 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..1bd0025 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -424,11 +424,15 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		// The header is written again when the archive is finished. It must keep its size, so the date is only taken once.
+		if (_m_date.empty()) {
+			char date_buffer[20];
+			std::time_t clk;
+			std::time(&clk);
+			auto* time = std::localtime(&clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			_m_date = date_buffer;
+		}
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
@@ -436,17 +440,18 @@ namespace zenkit {
 		this->_m_write->write_line("ASCII");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
 
-		memset(date_buffer, ' ', 20);
-		date_buffer[11] = '\0';
-		std::to_chars(date_buffer, date_buffer + 10, _m_index);
+		char count_buffer[20];
+		memset(count_buffer, ' ', 20);
+		count_buffer[11] = '\0';
+		std::to_chars(count_buffer, count_buffer + 10, _m_index);
 
 		this->_m_write->write_string("objects ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(count_buffer);
 		this->_m_write->write_line("END\n");
 
 		if (cur != _m_head) {
diff --git a/src/archive/ArchiveAscii.hh b/src/archive/ArchiveAscii.hh
index 5bbc4c0..0b600a4 100644
--- a/src/archive/ArchiveAscii.hh
+++ b/src/archive/ArchiveAscii.hh
@@ -77,5 +77,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::uint32_t _m_indent {0};
 		std::size_t _m_head;
+		std::string _m_date;
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..16e697d 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -240,11 +240,15 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		// The header is written again when the archive is finished. It must keep its size, so the date is only taken once.
+		if (_m_date.empty()) {
+			char date_buffer[20];
+			std::time_t clk;
+			std::time(&clk);
+			auto* time = std::localtime(&clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			_m_date = date_buffer;
+		}
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
@@ -252,17 +256,18 @@ namespace zenkit {
 		this->_m_write->write_line("BINARY");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
 
-		std::memset(date_buffer, ' ', 20);
-		date_buffer[10] = '\0';
-		std::to_chars(date_buffer, date_buffer + 9, _m_index);
+		char count_buffer[20];
+		std::memset(count_buffer, ' ', 20);
+		count_buffer[10] = '\0';
+		std::to_chars(count_buffer, count_buffer + 9, _m_index);
 
 		this->_m_write->write_string("objects ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(count_buffer);
 		this->_m_write->write_line("END\n");
 
 		if (cur != _m_head) {
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index d09c8da..e767ec2 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -77,5 +77,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::stack<size_t> _m_objects {};
 		std::size_t _m_head;
+		std::string _m_date;
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..683804c 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -405,11 +405,15 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		// The header is written again when the archive is finished. It must keep its size, so the date is only taken once.
+		if (_m_date.empty()) {
+			char date_buffer[20];
+			std::time_t clk;
+			std::time(&clk);
+			auto* time = std::localtime(&clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			_m_date = date_buffer;
+		}
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
@@ -417,7 +421,7 @@ namespace zenkit {
 		this->_m_write->write_line("BIN_SAFE");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 3b46b53..721e24a 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -124,5 +124,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::map<std::string, std::uint16_t, std::less<>> _m_hash_keys;
 		std::size_t _m_head;
+		std::string _m_date;
 	};
 } // namespace zenkit
-- 
2.43.0


From 506b73bf61fae10b56f7350f867db93a17b0264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 011/160] fix: binary archives whose first byte is a line feed
 are not shifted

---
 src/archive/ArchiveBinary.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 16e697d..4bdc689 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,15 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// Exactly one empty line follows. More line feeds already belong to the contents.
+		auto mark = read->tell();
+		auto c = read->read_char();
+		if (c == '\r') c = read->read_char();
+		if (c != '\n') read->seek(static_cast<ssize_t>(mark), Whence::BEG);
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From f49a3e40c732569bcac1b25936043e5d3c76ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 012/160] fix: raw entries of ASCII archives keep bytes below
 0x10

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 1bd0025..c95b9fe 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -373,8 +373,8 @@ namespace zenkit {
 		this->_m_write->write_string("=raw:");
 
 		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
+			buf.fill('\0');
 			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
-- 
2.43.0


From 87cb9ff3cc61cd24a40c923800fdbc6e8093cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 013/160] fix: ASCII archives store 3x3 matrices as raw entries
 like they are read

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index c95b9fe..0dfc384 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From 6faff9e03c2b073fc91c29d9a1c9fd535ca824c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 014/160] fix: ASCII archives store bytes and words as int
 entries like they are read

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 0dfc384..4d8c0eb 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From 9da7f309e535173bd811bafeccfe4d6b51eb5129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 015/160] fix: ASCII archives do not cut off large negative
 integers

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 4d8c0eb..f1654bc 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From 4ddabde66413d93148ade6bfb680fd9e0c8138b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 016/160] fix: object names and classes given as unterminated
 views are written correctly

---
 src/archive/ArchiveAscii.cc   |  2 +-
 src/archive/ArchiveBinsafe.cc | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index f1654bc..4ec7cd0 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -263,7 +263,7 @@ namespace zenkit {
 		this->_m_write->write_char('[');
 		this->_m_write->write_string(object_name);
 		this->_m_write->write_char(' ');
-		this->_m_write->write_string(empty_class ? "%" : class_name.data());
+		this->_m_write->write_string(empty_class ? "%" : class_name);
 		this->_m_write->write_char(' ');
 		this->_m_write->write_string(intosv(buf, version));
 		this->_m_write->write_char(' ');
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 683804c..c2944b4 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -286,8 +286,10 @@ namespace zenkit {
 		char buf[6 + 127 * 2 + 10 * 2];
 		auto n = snprintf(buf,
 		                  sizeof buf - 1,
-		                  "[%.127s %.127s %d %d]",
+		                  "[%.*s %.*s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.length(), 127)),
 		                  object_name.data(),
+		                  class_name.empty() ? 1 : static_cast<int>(std::min<size_t>(class_name.length(), 127)),
 		                  class_name.empty() ? "%" : class_name.data(),
 		                  version,
 		                  empty_class ? 0 : _m_index);
@@ -308,7 +310,14 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 
 		char buf[6 + 127 * 2 + 10 * 2];
-		auto n = snprintf(buf, sizeof buf - 1, "[%.127s %.127s %d %d]", object_name.data(), "\xA7", 0, index);
+		auto n = snprintf(buf,
+		                  sizeof buf - 1,
+		                  "[%.*s %s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.length(), 127)),
+		                  object_name.data(),
+		                  "\xA7",
+		                  0,
+		                  index);
 
 		this->_m_write->write_ushort(n);
 		this->_m_write->write_string(buf);
-- 
2.43.0


From 7c58f2e1b8aab1b01fa043372fee3e6f43ba7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:33 +0000
Subject: [PATCH 017/160] fix: packed objects keep their animation mode and
 bias

---
 src/vobs/VirtualObject.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..a8ad4da 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From 2c74fc019f5bbbbf002a1dac5e870154c678cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:33 +0000
Subject: [PATCH 018/160] fix: unpacked objects are saved the way they are
 loaded

---
 src/vobs/VirtualObject.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a8ad4da..9badc3a 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -251,6 +251,18 @@ namespace zenkit {
 			}
 
 			w.write_raw("dataRaw", packed);
+
+			if (!this->preset_name.empty()) {
+				w.write_string("presetName", this->preset_name);
+			}
+
+			if (!this->vob_name.empty()) {
+				w.write_string("vobName", this->vob_name);
+			}
+
+			if (this->visual && !this->visual->name.empty()) {
+				w.write_string("visual", this->visual->name);
+			}
 		} else {
 			w.write_int("pack", 0);
 			w.write_string("presetName", this->preset_name);
@@ -280,23 +292,14 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
-			w.write_string("presetName", this->preset_name);
-		}
-
-		if (!this->vob_name.empty()) {
-			w.write_string("vobName", this->vob_name);
-		}
-
-		if (this->visual && !this->visual->name.empty()) {
-			w.write_string("visual", this->visual->name);
-		}
-
+		// Unpacked objects always contain their visual and AI, even if there is none.
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", nullptr, version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-- 
2.43.0


From 0585c660ca943459a7747a90cd3a62ff73cdb1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:51 +0000
Subject: [PATCH 019/160] fix: event managers are only saved where they are
 loaded again

---
 src/vobs/VirtualObject.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 9badc3a..03df952 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -303,7 +303,8 @@ namespace zenkit {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		// Only packed objects in save-games contain their event manager. See VirtualObject::load.
+		if (this->event_manager && pack && w.is_save_game()) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From aaeca358ba59ddf770c232b09dc181a89a765b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:51 +0000
Subject: [PATCH 020/160] fix: the physics flag of packed objects matches the
 stored rigid body

---
 src/vobs/VirtualObject.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 03df952..5001c86 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -231,12 +231,8 @@ namespace zenkit {
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
-				bit1 |= this->physics_enabled << 6u;
-			} else {
-				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
-			}
+			// In save-games, this flag indicates that rigid-body information is present.
+			bit1 |= (this->physics_enabled && (this->rigid_body || !w.is_save_game())) << 6u;
 
 			if (version == GameVersion::GOTHIC_2) {
 				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
-- 
2.43.0


From 08530ac787b8bb43ce981ef6b961959f7cde7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:51 +0000
Subject: [PATCH 021/160] fix: objects keep the name of a visual when saved

---
 src/vobs/VirtualObject.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 5001c86..5aa717c 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -203,6 +203,10 @@ namespace zenkit {
 	void VirtualObject::save(WriteArchive& w, GameVersion version) const {
 		Object::save(w, version);
 
+		// Objects can have the name of a visual without having a visual.
+		bool has_visual = this->visual && this->visual->type != VisualType::UNKNOWN;
+		auto const& visual_name = has_visual ? this->visual->name : this->visual_name;
+
 		if (pack) {
 			w.write_int("pack", 1);
 			std::vector<std::byte> packed;
@@ -226,8 +230,8 @@ namespace zenkit {
 			std::uint16_t bit1 = 0;
 			bit1 |= !preset_name.empty() << 0u;
 			bit1 |= !vob_name.empty() << 1u;
-			bit1 |= (this->visual && !this->visual->name.empty()) << 2u;
-			bit1 |= (!!this->visual && this->visual->type != VisualType::UNKNOWN) << 3u;
+			bit1 |= !visual_name.empty() << 2u;
+			bit1 |= has_visual << 3u;
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
@@ -256,8 +260,8 @@ namespace zenkit {
 				w.write_string("vobName", this->vob_name);
 			}
 
-			if (this->visual && !this->visual->name.empty()) {
-				w.write_string("visual", this->visual->name);
+			if (!visual_name.empty()) {
+				w.write_string("visual", visual_name);
 			}
 		} else {
 			w.write_int("pack", 0);
@@ -266,7 +270,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", visual_name);
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -289,7 +293,7 @@ namespace zenkit {
 		}
 
 		// Unpacked objects always contain their visual and AI, even if there is none.
-		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
+		if (has_visual) {
 			w.write_object("visual", this->visual, version);
 		} else if (!pack) {
 			w.write_object("visual", nullptr, version);
-- 
2.43.0


From 2770c8543b83f0ec1a35b59b722b9a9075fbb2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:14 +0000
Subject: [PATCH 022/160] fix: skipping objects of bin-safe archives is not
 confused by string values

---
 src/archive/ArchiveBinsafe.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index c2944b4..2f679a5 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -219,7 +219,14 @@ namespace zenkit {
 	}
 
 	void ReadArchiveBinsafe::skip_entry() {
-		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
+		auto type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		if (type == ArchiveEntryType::HASH) {
+			// The value belongs to its key. It must not be mistaken for the start or end of an object.
+			(void) read->read_uint();
+			type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		}
+
+		switch (type) {
 		case ArchiveEntryType::STRING:
 		case ArchiveEntryType::RAW:
 		case ArchiveEntryType::RAW_FLOAT:
-- 
2.43.0


From 4cbe412dc52b2d3c4407e120052ddbf68edf238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:14 +0000
Subject: [PATCH 023/160] fix: skipping an object in a truncated ASCII archive
 terminates

---
 src/Archive.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Archive.cc b/src/Archive.cc
index 8797a87..6c08960 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -535,6 +535,8 @@ namespace zenkit {
 				++level;
 			} else if (read_object_end()) {
 				--level;
+			} else if (read->eof()) {
+				throw ParserError {"ReadArchive", "unexpected end of archive while skipping an object"};
 			} else {
 				skip_entry();
 			}
-- 
2.43.0


From d26a0be55f165027b6fe322bde782fee2897e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:35 +0000
Subject: [PATCH 024/160] fix: ASCII archives reject entries with too few
 values

---
 src/archive/ArchiveAscii.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 4ec7cd0..0a77d2c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -152,11 +152,19 @@ namespace zenkit {
 		}
 	}
 
+	/// \brief Fails if an entry contains fewer values than were read from it.
+	static void ensure_complete(std::stringstream const& in, char const* what) {
+		if (in.fail() && in.eof()) {
+			throw ParserError {"ReadArchive.Ascii", std::string {"not enough values in entry to read "} + what};
+		}
+	}
+
 	Color ReadArchiveAscii::read_color() {
 		std::stringstream in {read_entry("color")};
 
-		std::uint16_t r, g, b, a;
+		std::uint16_t r = 0, g = 0, b = 0, a = 0;
 		in >> r >> g >> b >> a;
+		ensure_complete(in, "color");
 		return Color {static_cast<std::uint8_t>(r),
 		              static_cast<std::uint8_t>(g),
 		              static_cast<std::uint8_t>(b),
@@ -168,6 +176,7 @@ namespace zenkit {
 		Vec3 v {};
 
 		in >> v.x >> v.y >> v.z;
+		ensure_complete(in, "vec3");
 		return v;
 	}
 
@@ -176,6 +185,7 @@ namespace zenkit {
 		Vec2 v {};
 
 		in >> v.x >> v.y;
+		ensure_complete(in, "vec2");
 		return v;
 	}
 
@@ -188,6 +198,7 @@ namespace zenkit {
 		AxisAlignedBoundingBox box {};
 
 		in >> box.min.x >> box.min.y >> box.min.z >> box.max.x >> box.max.y >> box.max.z;
+		ensure_complete(in, "bbox");
 		return box;
 	}
 
-- 
2.43.0


From 1c4b46a7db109c1596d7bd56a6167be45cac966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:50 +0000
Subject: [PATCH 025/160] fix: code masters in Gothic 2 save-games are saved
 the way they are loaded

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..8933c37 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			// FIXME: The references to the slaves which were triggered are not understood yet, see VCodeMaster::load.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				w.write_object("slaveTriggered" + std::to_string(i), nullptr, version);
+			}
 		}
 	}
 
-- 
2.43.0


From 0f60996d2ec804c041df7d140182e75bff86121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:50 +0000
Subject: [PATCH 026/160] fix: NPCs of Gothic 2 load all of their packed
 inventory strings

---
 src/vobs/Misc.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 8933c37..0a54bcd 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -371,8 +371,9 @@ namespace zenkit {
 			do {
 				auto next = std::find(it, pack.end(), ';');
 				this->packed[idx++].assign(it, next);
-				it = next;
-			} while (it != pack.end() && idx < 9);
+				if (next == pack.end()) break;
+				it = next + 1;
+			} while (idx < 9);
 		}
 
 		auto item_count = static_cast<size_t>(r.read_int()); // itemCount
-- 
2.43.0


From 7ae6bed5acf0dc2168e7b345e1426d9f22d11325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:50 +0000
Subject: [PATCH 027/160] fix: the color animation of lights is not prefixed
 with the range animation

---
 src/vobs/Light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..9b34b2d 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -101,7 +101,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From f9def06ebb559870420d1f97890a15b31e9141ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:50 +0000
Subject: [PATCH 028/160] fix: materials keep their alpha function when saved

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..7b86d5e 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From 596cbc35a36b716edea11a54331997efd41ed246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:51 +0000
Subject: [PATCH 029/160] fix: the original pose of camera key-frames is not
 transposed when saved

---
 src/vobs/Camera.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..86a9627 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,10 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		std::vector<std::byte> pose;
+		Write::to(&pose)->write_mat4(this->original_pose);
+		w.write_raw("originalPose", pose);
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
-- 
2.43.0


From f25b435ca0a30b4c51e7470be2973690944810b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 030/160] fix: sounds are saved with the entry names of the
 engine

---
 src/vobs/Sound.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vobs/Sound.cc b/src/vobs/Sound.cc
index d0e0712..10cc203 100644
--- a/src/vobs/Sound.cc
+++ b/src/vobs/Sound.cc
@@ -32,15 +32,15 @@ namespace zenkit {
 	void VSound::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_float("sndVolume", this->volume);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->mode));
-		w.write_float("sndVolume", this->random_delay);
-		w.write_float("sndVolume", this->random_delay_var);
-		w.write_bool("sndVolume", this->initially_playing);
-		w.write_bool("sndVolume", this->ambient3d);
-		w.write_bool("sndVolume", this->obstruction);
-		w.write_float("sndVolume", this->cone_angle);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->volume_type));
-		w.write_float("sndVolume", this->radius);
+		w.write_enum("sndMode", static_cast<std::uint32_t>(this->mode));
+		w.write_float("sndRandDelay", this->random_delay);
+		w.write_float("sndRandDelayVar", this->random_delay_var);
+		w.write_bool("sndStartOn", this->initially_playing);
+		w.write_bool("sndAmbient3D", this->ambient3d);
+		w.write_bool("sndObstruction", this->obstruction);
+		w.write_float("sndConeAngle", this->cone_angle);
+		w.write_enum("sndVolType", static_cast<std::uint32_t>(this->volume_type));
+		w.write_float("sndRadius", this->radius);
 		w.write_string("sndName", this->sound_name);
 
 		if (w.is_save_game()) {
-- 
2.43.0


From 170b39dd9b03d4e198ee324b07fbde607b6c4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 031/160] fix: trigger lists are saved with the entry names of
 the engine

---
 src/vobs/Trigger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..324039e 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -219,7 +219,7 @@ namespace zenkit {
 		VTrigger::save(w, version);
 		w.write_enum("listProcess", static_cast<std::uint32_t>(this->mode));
 
-		w.write_byte("numTargets", this->targets.size());
+		w.write_byte("numTarget", this->targets.size());
 		for (auto i = 0u; i < this->targets.size(); ++i) {
 			w.write_string("triggerTarget" + std::to_string(i), targets[i].name);
 			w.write_float("fireDelay" + std::to_string(i), targets[i].delay);
-- 
2.43.0


From 545879b1441d59e7508ac6657cc255d36c5cccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 032/160] fix: movers are saved with the entry names of the
 engine

---
 src/vobs/Trigger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 324039e..649e9ff 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -135,9 +135,9 @@ namespace zenkit {
 	void VMover::save(WriteArchive& w, GameVersion version) const {
 		VTrigger::save(w, version);
 		w.write_enum("moverBehavior", static_cast<std::uint32_t>(this->behavior));
-		w.write_float("autoLinkEnabled", this->touch_blocker_damage);
-		w.write_float("autoLinkEnabled", this->stay_open_time_sec);
-		w.write_bool("autoLinkEnabled", this->locked);
+		w.write_float("touchBlockerDamage", this->touch_blocker_damage);
+		w.write_float("stayOpenTimeSec", this->stay_open_time_sec);
+		w.write_bool("moverLocked", this->locked);
 		w.write_bool("autoLinkEnabled", this->auto_link);
 
 		if (version == GameVersion::GOTHIC_2) {
-- 
2.43.0


From fab3caead0d9e4e66757ab8bb4e6b5052ff8b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 033/160] fix: materials are saved with the entry names of the
 engine

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 7b86d5e..a5aa266 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -103,7 +103,7 @@ namespace zenkit {
 
 		w.write_bool("noCollDet", this->disable_collision);
 		w.write_bool("noLightmap", this->disable_lightmap);
-		w.write_bool("losDontCollapse", this->dont_collapse);
+		w.write_bool("lodDontCollapse", this->dont_collapse);
 		w.write_string("detailObject", this->detail_object);
 
 		if (version == GameVersion::GOTHIC_2) {
-- 
2.43.0


From 8cefbfec67600a3a5da4f1060aa7283bd6180504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 034/160] fix: the sky controller is saved with the entry names
 of the engine

---
 src/World.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..4525f7f 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -297,10 +297,10 @@ namespace zenkit {
 		w.write_float("dayCtr", day_ctr);
 
 		if (version == GameVersion::GOTHIC_2) {
-			w.write_float("", fade_scale);      // fadeScale
-			w.write_bool("", render_lightning); // renderLightning
-			w.write_bool("", is_raining);       // isRaining
-			w.write_int("", rain_ctr);          // rainCtr
+			w.write_float("fadeScale", fade_scale);
+			w.write_bool("renderLightning", render_lightning);
+			w.write_bool("isRaining", is_raining);
+			w.write_int("rainCtr", rain_ctr);
 		}
 	}
 } // namespace zenkit
-- 
2.43.0


From 48981dc9ab7237b225350bce90dd8ad0abe10eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 035/160] fix: script symbols of save-games are saved with the
 entry names of the engine

---
 src/SaveGame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7327e5a..16e9cd0 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -228,8 +228,8 @@ namespace zenkit {
 				w.write_int("symValue" + iStr, sym.values[0]);
 			} else {
 				w.write_int("symName" + iStr + "cnt", sym.values.size());
-				for (auto v : sym.values) {
-					w.write_int("symValue" + iStr + "_0", v);
+				for (auto j = 0u; j < sym.values.size(); ++j) {
+					w.write_int("symValue" + iStr + "_" + std::to_string(j), sym.values[j]);
 				}
 			}
 		}
-- 
2.43.0


From 42848b2d3637373cde303aaa6141669de6e47d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:26 +0000
Subject: [PATCH 036/160] fix: camera key-frames of Gothic 2 are saved with the
 class version of the engine

---
 include/zenkit/vobs/Camera.hh | 2 ++
 src/vobs/Camera.cc            | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/zenkit/vobs/Camera.hh b/include/zenkit/vobs/Camera.hh
index dcf6568..ec5481b 100644
--- a/include/zenkit/vobs/Camera.hh
+++ b/include/zenkit/vobs/Camera.hh
@@ -187,6 +187,8 @@ namespace zenkit {
 		/// \param w The archive to save to.
 		/// \param version The version of the game to save for.
 		ZKAPI void save(WriteArchive& w, GameVersion version) const override;
+
+		[[nodiscard]] ZKAPI uint16_t get_version_identifier(GameVersion game) const override;
 	};
 
 	/// \brief A VOb which defined the movement of the camera during a cutscene.
diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 86a9627..802e642 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -50,6 +50,10 @@ namespace zenkit {
 		w.write_raw("originalPose", pose);
 	}
 
+	uint16_t VCameraTrajectoryFrame::get_version_identifier(GameVersion game) const {
+		return game == GameVersion::GOTHIC_1 ? VirtualObject::get_version_identifier(game) : 31489;
+	}
+
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
 		obj.load(r, version);
 	}
-- 
2.43.0


From 0e2c9f31b2ccc59ec703971753f56fac02c5ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:26 +0000
Subject: [PATCH 037/160] fix: multi-resolution mesh visuals of Gothic 2 are
 saved with the class version of the engine

---
 include/zenkit/vobs/VirtualObject.hh | 2 ++
 src/vobs/VirtualObject.cc            | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/zenkit/vobs/VirtualObject.hh b/include/zenkit/vobs/VirtualObject.hh
index 325bed2..bd49e7d 100644
--- a/include/zenkit/vobs/VirtualObject.hh
+++ b/include/zenkit/vobs/VirtualObject.hh
@@ -104,6 +104,8 @@ namespace zenkit {
 
 	struct VisualMultiResolutionMesh final : Visual {
 		ZK_OBJECT(ObjectType::zCProgMeshProto);
+
+		[[nodiscard]] ZKAPI uint16_t get_version_identifier(GameVersion game) const override;
 	};
 
 	struct VisualParticleEffect final : Visual {
diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 5aa717c..556c598 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -319,6 +319,10 @@ namespace zenkit {
 		}
 	}
 
+	uint16_t VisualMultiResolutionMesh::get_version_identifier(GameVersion game) const {
+		return game == GameVersion::GOTHIC_1 ? 0 : 64513;
+	}
+
 	uint16_t VirtualObject::get_version_identifier(GameVersion game) const {
 		return game == GameVersion::GOTHIC_1 ? 12289 : 52224;
 	}
-- 
2.43.0


From 860a15c390bffee534fa6af9fa2db88def745378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:26 +0000
Subject: [PATCH 038/160] fix: cutscene managers are saved with the class
 version of the engine

---
 include/zenkit/SaveGame.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/zenkit/SaveGame.hh b/include/zenkit/SaveGame.hh
index 4753c0e..39f8f47 100644
--- a/include/zenkit/SaveGame.hh
+++ b/include/zenkit/SaveGame.hh
@@ -107,6 +107,10 @@ namespace zenkit {
 
 		void load(ReadArchive& r, GameVersion version) override;
 		void save(WriteArchive& w, GameVersion version) const override;
+
+		[[nodiscard]] uint16_t get_version_identifier(GameVersion) const override {
+			return 36865;
+		}
 	};
 
 	struct SaveState {
-- 
2.43.0


From 7d0a814210da806d16634913514cd5c1a635bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 039/160] fix: mipmap levels of textures are never smaller than
 one pixel

---
 include/zenkit/Texture.hh | 4 ++--
 src/Texture.cc            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..ef2d33c 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -82,13 +82,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return _m_width >> level > 0 ? _m_width >> level : 1;
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return _m_height >> level > 0 ? _m_height >> level : 1;
 		}
 
 		/// \return The width of the texture in-engine.
diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..e8820f5 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -390,7 +390,7 @@ namespace zenkit {
 
 		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			tex._m_textures.push_back(_ztex_convert_format(data.data(), tex.mipmap_width(i), tex.mipmap_height(i), fmt, format));
 		}
 
 		return tex;
-- 
2.43.0


From 333fd09c02d090587295a5bbbe6e5cc0ff71a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 040/160] fix: DXT textures include partial blocks at their
 right and bottom edges

---
 src/Texture.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index e8820f5..4ad521c 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -59,12 +59,12 @@ namespace zenkit {
 		case TextureFormat::P8:
 			return x * y;
 		case TextureFormat::DXT1:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 8;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 8;
 		case TextureFormat::DXT2:
 		case TextureFormat::DXT3:
 		case TextureFormat::DXT4:
 		case TextureFormat::DXT5:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 16;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 16;
 		default:
 			return 0;
 		}
-- 
2.43.0


From 0ea25d1fe2d10c6a608257f05aaef8ec28edfa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 041/160] fix: loading a texture again replaces its mipmaps

---
 src/Texture.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 4ad521c..0885939 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -303,6 +303,8 @@ namespace zenkit {
 			}
 		}
 
+		this->_m_textures.clear();
+
 		// Lowest mipmap-level first
 		for (std::int64_t level = this->_m_mipmap_count - 1; level >= 0; --level) {
 			auto size =
-- 
2.43.0


From c599ac7b05e127da205ee6e02bd966231c8828d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 042/160] fix: converting palette textures to RGBA does not
 write out of bounds

---
 src/Texture.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 0885939..09a152f 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -326,6 +326,7 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
+			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From 11c748299d55541ededa2cfed1d70cbe70fd7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 043/160] fix: building B8G8R8A8 textures converts whole pixels

---
 src/Texture.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 09a152f..ce78d25 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -187,10 +187,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
-- 
2.43.0


From f1a9276197b438e6ebc1926109663ab1a862e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 044/160] fix: building A8R8G8B8 textures keeps the channels
 apart

---
 src/Texture.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index ce78d25..2edd1c2 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -209,10 +209,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
-- 
2.43.0


From 0d28ad3a2dd6a593bd54f304ccfe34763d6424a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 045/160] fix: building R5G6B5 textures reduces each channel to
 its bits

---
 src/Texture.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 2edd1c2..b9592c3 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -236,9 +236,9 @@ namespace zenkit {
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
 				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
+				    static_cast<uint8_t>(bytes[i * 4 + 2] >> 3),
+				    static_cast<uint8_t>(bytes[i * 4 + 1] >> 2),
+				    static_cast<uint8_t>(bytes[i * 4 + 0] >> 3),
 				};
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
-- 
2.43.0


From 8082a54b640d8c83c831fdd48f0ccd047ed51f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 046/160] fix: building DXT textures does not write out of
 bounds

---
 src/Texture.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index b9592c3..0f71007 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -246,12 +246,15 @@ namespace zenkit {
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
-- 
2.43.0


From 1adfd4d511cb916f910fa279ac25d89764531c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 047/160] fix: built textures store their mipmaps in the order
 they are accessed

---
 src/Texture.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 0f71007..e38c580 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -394,9 +394,12 @@ namespace zenkit {
 		tex._m_mipmap_count = _m_mipmaps.size();
 		tex._m_average_color = {}; // FIXME(lmichaelis): Calculate the average color
 
+		// Quirk: largest mipmap (level 0) stored at the end of the vector
+		tex._m_textures.resize(_m_mipmaps.size());
 		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), tex.mipmap_width(i), tex.mipmap_height(i), fmt, format));
+			tex._m_textures[_m_mipmaps.size() - 1 - i] =
+			    _ztex_convert_format(data.data(), tex.mipmap_width(i), tex.mipmap_height(i), fmt, format);
 		}
 
 		return tex;
-- 
2.43.0


From a06894678bd3d3fe2899db4438de95ca9b5909e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:43 +0000
Subject: [PATCH 048/160] fix: polygons of Gothic 1 meshes keep both bits of
 their main axis

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..6ada476 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -117,7 +117,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -318,7 +318,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis & 2) >> 1);
 					c->write_short(flags.sector_index);
 				}
 
-- 
2.43.0


From 8c273d032443e40a04124070d21d90722bfbf115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:43 +0000
Subject: [PATCH 049/160] fix: meshes of Gothic 2 are saved with the indices of
 their polygons

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 6ada476..c162883 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From 2c320abed49e2cb51b86e58d858bd0f38544c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:43 +0000
Subject: [PATCH 050/160] fix: converted oriented boxes with negative
 coordinates are not extended to zero

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..6d23ff4 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -57,9 +57,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From 495fd8eb97ea751d2997e948cc96886453c729b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 051/160] fix: the spawn flags of saved worlds keep their value

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 4525f7f..6f2b452 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -241,7 +241,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From d859788b4095d70d3f90cea35d8c9ed31b4a746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 052/160] fix: empty BSP trees are loaded without a node

---
 src/world/BspTree.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d82cf23..a94a401 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -95,7 +95,9 @@ namespace zenkit {
 				this->nodes.reserve(node_count);
 				this->leaf_node_indices.reserve(leaf_count);
 
-				_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				if (node_count > 0) {
+					_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				}
 
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
-- 
2.43.0


From 63841d3c3e4e7c55066582e0352f938955d0ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 053/160] fix: BSP trees without light points are saved without
 any

---
 src/world/BspTree.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index a94a401..156982c 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -210,11 +210,13 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
-			for (auto& point : this->light_points) {
-				c->write_vec3(point);
-			}
-		});
+		if (!this->light_points.empty()) {
+			proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
+				for (auto& point : this->light_points) {
+					c->write_vec3(point);
+				}
+			});
+		}
 
 		proto::write_chunk(w, BspChunkType::OUTDOORS, [this](Write* c) {
 			c->write_uint(static_cast<uint32_t>(this->sectors.size()));
-- 
2.43.0


From 3f74fad599f2dd071229a0a7ec20836f7aec27fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 054/160] fix: way points which are linked to themselves are
 loaded

---
 src/world/WayNet.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 1711aaa..6cbc8c5 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -6,6 +6,8 @@
 
 #include "../Internal.hh"
 
+#include <unordered_set>
+
 namespace zenkit {
 	void WayPoint::load(ReadArchive& r, GameVersion) {
 		this->name = r.read_string();      // wpName
@@ -28,9 +30,11 @@ namespace zenkit {
 		auto count_points = r.read_int();         // numWaypoints
 		this->points.reserve(count_points);
 
+		std::unordered_set<WayPoint*> known {};
 		for (auto i = 0; i < count_points; ++i) {
 			this->points.push_back(r.read_object<WayPoint>(version));
 			this->points.back()->free_point = true;
+			known.insert(this->points.back().get());
 		}
 
 		auto count_edges = r.read_int(); // numWays
@@ -40,8 +44,8 @@ namespace zenkit {
 			auto wayl = r.read_object<WayPoint>(version);
 			auto wayr = r.read_object<WayPoint>(version);
 
-			if (wayl.use_count() < 3) this->points.push_back(wayl);
-			if (wayr.use_count() < 3) this->points.push_back(wayr);
+			if (known.insert(wayl.get()).second) this->points.push_back(wayl);
+			if (known.insert(wayr.get()).second) this->points.push_back(wayr);
 
 			this->edges.emplace_back(wayl, wayr);
 		}
-- 
2.43.0


From fbef0f29dd0b01f72686b1a057fe939edbdaddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 055/160] fix: cutscene players keep the contexts in their play
 list alive

---
 include/zenkit/World.hh | 2 +-
 src/World.cc            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/World.hh b/include/zenkit/World.hh
index 785bef5..247e22a 100644
--- a/include/zenkit/World.hh
+++ b/include/zenkit/World.hh
@@ -21,7 +21,7 @@ namespace zenkit {
 
 		int32_t last_process_day;
 		int32_t last_process_hour;
-		std::vector<std::weak_ptr<CutsceneContext>> playlists;
+		std::vector<std::shared_ptr<CutsceneContext>> playlists;
 
 		[[nodiscard]] ObjectType get_object_type() const override {
 			return TYPE;
diff --git a/src/World.cc b/src/World.cc
index 6f2b452..de4fa8d 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -266,7 +266,7 @@ namespace zenkit {
 		w.write_int("playListCount", this->playlists.size());
 
 		for (auto i = 0u; i < this->playlists.size(); ++i) {
-			w.write_object("playContext" + std::to_string(i), this->playlists[i].lock(), version);
+			w.write_object("playContext" + std::to_string(i), this->playlists[i], version);
 		}
 	}
 
-- 
2.43.0


From c11edfc4506e1c89889f95e9dcaf9c6978abf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 056/160] fix: saved cutscene players and sky controllers carry
 their class version

---
 include/zenkit/World.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/zenkit/World.hh b/include/zenkit/World.hh
index 247e22a..de4e8aa 100644
--- a/include/zenkit/World.hh
+++ b/include/zenkit/World.hh
@@ -27,6 +27,10 @@ namespace zenkit {
 			return TYPE;
 		}
 
+		[[nodiscard]] uint16_t get_version_identifier(GameVersion) const override {
+			return 36865;
+		}
+
 		void load(ReadArchive& r, GameVersion version) override;
 		void save(WriteArchive& w, GameVersion version) const override;
 	};
@@ -52,6 +56,10 @@ namespace zenkit {
 			return TYPE;
 		}
 
+		[[nodiscard]] uint16_t get_version_identifier(GameVersion game) const override {
+			return game == GameVersion::GOTHIC_1 ? 52417 : 0;
+		}
+
 		void load(ReadArchive& r, GameVersion version) override;
 		void save(WriteArchive& w, GameVersion version) const override;
 	};
-- 
2.43.0


From abf69b2958261b87f5b6049d6f89703ec8621672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:51 +0000
Subject: [PATCH 057/160] fix: objects in saved worlds of Gothic 2 carry the
 class versions of that game

---
 include/zenkit/World.hh              | 4 ++--
 include/zenkit/vobs/Misc.hh          | 4 ++++
 include/zenkit/vobs/VirtualObject.hh | 8 ++++++++
 src/vobs/Misc.cc                     | 4 ++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/World.hh b/include/zenkit/World.hh
index de4e8aa..967499f 100644
--- a/include/zenkit/World.hh
+++ b/include/zenkit/World.hh
@@ -56,8 +56,8 @@ namespace zenkit {
 			return TYPE;
 		}
 
-		[[nodiscard]] uint16_t get_version_identifier(GameVersion game) const override {
-			return game == GameVersion::GOTHIC_1 ? 52417 : 0;
+		[[nodiscard]] uint16_t get_version_identifier(GameVersion) const override {
+			return 52417;
 		}
 
 		void load(ReadArchive& r, GameVersion version) override;
diff --git a/include/zenkit/vobs/Misc.hh b/include/zenkit/vobs/Misc.hh
index e572dbd..4be2532 100644
--- a/include/zenkit/vobs/Misc.hh
+++ b/include/zenkit/vobs/Misc.hh
@@ -459,6 +459,10 @@ namespace zenkit {
 				return TYPE;
 			}
 
+			[[nodiscard]] uint16_t get_version_identifier(GameVersion game) const override {
+				return game == GameVersion::GOTHIC_1 ? 0 : 64513;
+			}
+
 			void load(ReadArchive& r, GameVersion version) override;
 			void save(WriteArchive& w, GameVersion version) const override;
 		};
diff --git a/include/zenkit/vobs/VirtualObject.hh b/include/zenkit/vobs/VirtualObject.hh
index bd49e7d..99ec5d1 100644
--- a/include/zenkit/vobs/VirtualObject.hh
+++ b/include/zenkit/vobs/VirtualObject.hh
@@ -129,6 +129,10 @@ namespace zenkit {
 	struct VisualDecal final : Visual {
 		ZK_OBJECT(ObjectType::zCDecal);
 
+		[[nodiscard]] uint16_t get_version_identifier(GameVersion game) const override {
+			return game == GameVersion::GOTHIC_1 ? 0 : 53505;
+		}
+
 		/// \brief The size of the decal texture as a 2-dimensional vector.
 		///
 		/// The `x`-coordinate is the width, and the `y`-coordinate is the height.
@@ -214,6 +218,10 @@ namespace zenkit {
 	struct AiHuman final : Ai {
 		ZK_OBJECT(ObjectType::oCAIHuman);
 
+		[[nodiscard]] uint16_t get_version_identifier(GameVersion game) const override {
+			return game == GameVersion::GOTHIC_1 ? 0 : 36865;
+		}
+
 		int water_level;
 		float floor_y;
 		float water_y;
diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 0a54bcd..ae2c594 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -600,8 +600,8 @@ namespace zenkit {
 		}
 	}
 
-	uint16_t VNpc::get_version_identifier(GameVersion) const {
-		return 52224;
+	uint16_t VNpc::get_version_identifier(GameVersion game) const {
+		return game == GameVersion::GOTHIC_1 ? 52224 : 29697;
 	}
 
 	void VScreenEffect::load(ReadArchive& r, GameVersion version) {
-- 
2.43.0


From 308e944cb04e8193700cfb400fadd70fc5c4baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 058/160] fix: save games without a thumbnail can be loaded
 again

---
 src/SaveGame.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 16e9cd0..824d27c 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -348,12 +348,11 @@ namespace zenkit {
 			ar->write_header();
 		}
 
-		{
+		if (this->thumbnail) {
 			auto w = Write::to(path / "THUMB.SAV");
-
-			if (this->thumbnail) {
-				this->thumbnail->save(w.get());
-			}
+			this->thumbnail->save(w.get());
+		} else {
+			std::filesystem::remove(path / "THUMB.SAV");
 		}
 
 		{
-- 
2.43.0


From 684e961390587d68dd0acd686a34b3b47ff8d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 059/160] fix: saving to another spelling of the current path
 keeps the save game's files

---
 src/SaveGame.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 824d27c..3e7e4e7 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -328,7 +328,8 @@ namespace zenkit {
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
 		// Copy over the current save if necessary.
-		if (_m_path != path) {
+		std::error_code ec;
+		if (_m_path != path && !std::filesystem::equivalent(_m_path, path, ec)) {
 			if (std::filesystem::exists(path)) {
 				std::filesystem::remove_all(path);
 			}
-- 
2.43.0


From ed3c765402ff0a887fa8dee7e8877d0e8f98f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 060/160] fix: loading a save game replaces the state loaded
 before

---
 src/SaveGame.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 3e7e4e7..7554428 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -303,6 +303,8 @@ namespace zenkit {
 		// Load THUMB.SAV
 		{
 			ZKLOGI("SaveGame", "Loading THUMB.SAV");
+			this->thumbnail.reset();
+
 			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
 				auto r = Read::from(*file_thumb);
 
@@ -322,6 +324,7 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_dat);
 			auto ar = ReadArchive::from(r.get());
+			this->state = {};
 			this->state.load(*ar, _m_version);
 		}
 	}
-- 
2.43.0


From 57f76f5125b9dff65450738427d14fa64ef76bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 061/160] fix: the guild table of Gothic 2 save games has 66 by
 66 entries

---
 include/zenkit/SaveGame.hh |  2 +-
 src/SaveGame.cc            | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/zenkit/SaveGame.hh b/include/zenkit/SaveGame.hh
index 39f8f47..e76dc24 100644
--- a/include/zenkit/SaveGame.hh
+++ b/include/zenkit/SaveGame.hh
@@ -124,7 +124,7 @@ namespace zenkit {
 		std::vector<SaveInfoState> infos;
 		std::vector<SaveSymbolState> symbols;
 		std::vector<SaveLogTopic> log;
-		std::uint8_t guild_attitudes[42][42];
+		std::uint8_t guild_attitudes[66][66];
 
 		ZKINT void load(ReadArchive& r, GameVersion version);
 		ZKINT void save(WriteArchive& w, GameVersion version) const;
diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7554428..9498edc 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -159,12 +159,13 @@ namespace zenkit {
 		}
 		// }
 
-		// A two-dimensional array of the form int[42][42] containing guild attitudes
-		auto raw = r.read_raw(42 * 42); // guildTable
+		// A two-dimensional array of the form int[42][42] (66 guilds in Gothic II) containing guild attitudes
+		auto guild_count = version == GameVersion::GOTHIC_1 ? 42 : 66;
+		auto raw = r.read_raw(guild_count * guild_count); // guildTable
 
-		for (auto& guild_attitude : this->guild_attitudes) {
-			for (unsigned char& j : guild_attitude) {
-				j = raw->read_ubyte();
+		for (auto i = 0; i < guild_count; ++i) {
+			for (auto j = 0; j < guild_count; ++j) {
+				this->guild_attitudes[i][j] = raw->read_ubyte();
 			}
 		}
 	}
@@ -235,13 +236,14 @@ namespace zenkit {
 		}
 		// }
 
-		// A two-dimensional array of the form int[42][42] containing guild attitudes
-		std::vector<std::byte> guild_table(42 * 42);
+		// A two-dimensional array of the form int[42][42] (66 guilds in Gothic II) containing guild attitudes
+		auto guild_count = version == GameVersion::GOTHIC_1 ? 42 : 66;
+		std::vector<std::byte> guild_table(guild_count * guild_count);
 		auto wrgt = Write::to(&guild_table);
 
-		for (auto& guild_attitude : this->guild_attitudes) {
-			for (auto j : guild_attitude) {
-				wrgt->write_ubyte(j);
+		for (auto i = 0; i < guild_count; ++i) {
+			for (auto j = 0; j < guild_count; ++j) {
+				wrgt->write_ubyte(this->guild_attitudes[i][j]);
 			}
 		}
 
-- 
2.43.0


From 165b5b11f5db81c5c64c25c34db023d0edf38307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:06 +0000
Subject: [PATCH 062/160] fix: looking up an unknown cutscene block finds
 nothing

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..1e3043d 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -109,7 +109,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From 4705e40cbb68f22c0a7084b16a86bba99530b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 063/160] fix: store element counts, not byte counts, in the
 sections of a multi-resolution mesh

MultiResolutionMesh::load_from_section reads as many elements as the section says, so that a saved
sub-mesh could not be loaded again.
---
 src/MultiResolutionMesh.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..c91d32d 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = static_cast<uint32_t>(this->triangles.size());
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = static_cast<uint32_t>(this->wedges.size());
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = static_cast<uint32_t>(this->colors.size());
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = static_cast<uint32_t>(this->triangle_plane_indices.size());
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = static_cast<uint32_t>(this->triangle_planes.size());
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = static_cast<uint32_t>(this->triangle_edges.size());
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,21 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = static_cast<uint32_t>(this->edges.size());
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = static_cast<uint32_t>(this->edge_scores.size());
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = static_cast<uint32_t>(this->wedge_map.size());
 
 		return section;
 	}
-- 
2.43.0


From de01d7f9875daac7347002a8526b76fb87b9e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 064/160] fix: do not count the size field itself in the
 content size of a multi-resolution mesh

The reader looks for the section table four bytes too far and fails.
---
 src/MultiResolutionMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index c91d32d..8b71e5e 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
-- 
2.43.0


From 8c4698bf9d34c40a54f94b93db55751b05d2cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 065/160] fix: write all of the 16 trailing bytes of a
 multi-resolution mesh

The reader skips 0x10 bytes; only ten were written, so that it left the chunk.
---
 src/MultiResolutionMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index 8b71e5e..adc593b 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, sizeof padding);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
-- 
2.43.0


From bde3a9d3314435124c30c36bc930a3c6f015c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 066/160] fix: give the empty vertex-update section of a saved
 mesh an offset inside of the content

It was never set, so that the stored offset wrapped around.
---
 src/MultiResolutionMesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index adc593b..aacf3f7 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -339,6 +339,9 @@ namespace zenkit {
 		}
 		section.wedge_map.size = static_cast<uint32_t>(this->wedge_map.size());
 
+		// vertex updates are not kept
+		section.vertex_updates.offset = w->tell();
+
 		return section;
 	}
 } // namespace zenkit
-- 
2.43.0


From 64c03f8f0d94cff41c87ce6d24fbae09c08248e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 067/160] fix: save the weights and nodes of a soft-skin mesh
 in the NODES chunk

They were written as a second HEADER chunk and lost.
---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..382e470 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
-- 
2.43.0


From 2649b83b4e6d1f1847ba0f54f603800bb82c66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 068/160] fix: do not count the size field itself in the weight
 buffer of a soft-skin mesh

The reader skips to the end of the buffer, four bytes into the wedge normals.
---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 382e470..80684ca 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - static_cast<ssize_t>(sizeof(uint32_t)));
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From c1c74dedf63094fe6c74d6b5348ced903e4a0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 069/160] fix: save each attachment of a model mesh in a chunk
 of its own

The reader takes one attachment per chunk; all but the first were lost, and a mesh without any could
not be loaded again.
---
 src/ModelMesh.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..8cf83fd 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,11 +90,9 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) { v.save_to_section(wr, version); });
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
-- 
2.43.0


From 83ab41bd1d8c4b72ec5c1aae190a218f0452998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 070/160] fix: save the number of soft-skin meshes of a model
 mesh

---
 src/ModelMesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 8cf83fd..20ae236 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -96,6 +96,7 @@ namespace zenkit {
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
+			wr->write_ushort(static_cast<uint16_t>(this->meshes.size()));
 
 			for (auto& msh : this->meshes) {
 				msh.save(wr, version);
-- 
2.43.0


From ad99a42d75db7c2b8f20d6b34a119b247b898032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 071/160] fix: do not skip blanks after the attachment names of
 a model mesh

Names which are empty or begin with a blank were changed or lost.
---
 src/ModelMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 20ae236..79bda92 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -39,7 +39,7 @@ namespace zenkit {
 				    auto node_count = c->read_ushort();
 
 				    for (std::uint32_t i = 0; i < node_count; ++i) {
-					    attachment_names.push_back(c->read_line(true));
+					    attachment_names.push_back(c->read_line(false));
 				    }
 				    break;
 			    }
-- 
2.43.0


From 706c872e2c8ca38dd3b723a0404f5de23a3cde74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 072/160] fix: do not skip blanks after the version of a font

An empty texture name, or one that begins with a blank, was read wrongly.
---
 src/Font.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 8358089..90a881f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -13,7 +13,7 @@ namespace zenkit {
 	    : name(std::move(font_name)), height(font_height), glyphs(std::move(font_glyphs)) {}
 
 	void Font::load(Read* r) {
-		if (auto version = r->read_line(true); version != "1") {
+		if (auto version = r->read_line(false); version != "1") {
 			throw ParserError {"Font", "version mismatch: expected version 1, got " + version};
 		}
 
-- 
2.43.0


From d8c13f49b5766dfa5bf9435d35581b6409ad431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 073/160] fix: do not skip blanks after the texts of animation
 events

The last text is followed by binary data. Bytes of it which look like a blank were swallowed, so that
the rest of the events was read from the wrong place; empty texts were lost.
---
 src/ModelAnimation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..2f66b64 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -97,10 +97,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
-- 
2.43.0


From 9fae9d13d3475af33aefdcd4d85c25a323787af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 074/160] fix: do not skip blanks after the source names of a
 morph mesh

They are followed by the binary date of the next source, part of which can look like a blank.
---
 src/MorphMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..e0b9e62 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -21,7 +21,7 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
-- 
2.43.0


From 93da9559d768ee677da983521ef9ee4ea3555aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 075/160] fix: a comment in a model script ends with the file

A last line which is a comment without a line break made the parser hang.
---
 src/ModelScriptDsl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..e31b953 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -54,7 +54,7 @@ namespace zenkit {
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
+				while (!_m_buffer->eof() && _m_buffer->read_char() != '\n')
 					_m_column += 1;
 
 				_m_line += 1;
-- 
2.43.0


From 7fe44bcc4a52a723d09f1a65a1b2b122b853b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 076/160] fix: skipping an unknown statement of a model script
 ends with the file

The parser hung if the last line had no line break.
---
 src/ModelScriptDsl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index e31b953..5708b28 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -156,7 +156,7 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		while (!_m_buffer->eof() && _m_buffer->read_char() != '\n') {}
 	}
 
 	void MdsTokenizer::backtrack() {
-- 
2.43.0


From 4c389b30c3c7a599ead96565bb0b8e809cec2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 077/160] fix: ignoring the events of a combination or blend
 ends with the file

The parser hung if the block was not closed.
---
 src/ModelScriptDsl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 5708b28..f83ca97 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -410,7 +410,7 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		while (!this->eof() && this->_m_stream.next() != MdsToken::RBRACE) {}
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
-- 
2.43.0


From 5aacd4a2164fb76014b1930bdb5e9b20eff50626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 078/160] fix: a string in a model script ends with the file

An unterminated string in the last line made the parser collect characters until memory ran out.
---
 src/ModelScriptDsl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index f83ca97..f9aca8f 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -93,11 +93,13 @@ namespace zenkit {
 				while (chr != '"' && chr != '\n') {
 					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) break;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				}
 
-				if (chr != '"') {
+				if (chr == '\n') {
 					WARN_SYNTAX("String not terminated");
 					_m_buffer->seek(-1, Whence::CUR);
 					_m_column -= 1;
-- 
2.43.0


From 852a631adc5dc269ab21d04f40e362fc916ab690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 079/160] fix: only strip the parenthesis from model script
 strings which are not terminated

A terminated string lost its last character if that was a closing parenthesis. Unterminated ones kept
the parenthesis if blanks followed it, and the carriage return of a Windows line end.
---
 src/ModelScriptDsl.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index f9aca8f..dc17a67 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -105,7 +105,15 @@ namespace zenkit {
 					_m_column -= 1;
 				}
 
-				if (prev == ')') _m_value.pop_back();
+				if (chr != '"') {
+					// Drop what is not part of the name: blanks, a carriage return and the closing parenthesis.
+					while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back()))) {
+						_m_value.pop_back();
+					}
+
+					if (prev == ')') _m_value.pop_back();
+				}
+
 				return MdsToken::STRING;
 			}
 
-- 
2.43.0


From 6095a402fca6ca730d42978c799bbb1bb892cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:52 +0000
Subject: [PATCH 080/160] fix: model script events have the frames that are
 listed

An empty list or one with a blank at its end yielded another frame. In compiled scripts, a list with
something that is not a number made the parser collect frames until memory ran out.
---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From ee76e12d0755cd3c2f2663e0e693b8fe5802e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 081/160] fix: do not skip blanks after the texts of compiled
 model scripts

An empty text at the end of a chunk was replaced with bytes of the next one, and blanks at the beginning
of a text were lost.
---
 src/ModelScript.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..14de47f 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -193,7 +193,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::REGISTER_MESH:
-				    script.meshes.push_back(c->read_line(true));
+				    script.meshes.push_back(c->read_line(false));
 				    break;
 			    case ModelScriptBinaryChunkType::ANIMATION: {
 				    MdsAnimation anim {};
@@ -291,7 +291,7 @@ namespace zenkit {
 					    ZKLOGW("ModelScript", "Unexpected type for modelTag: \"%s\"", event_type.c_str());
 				    }
 
-				    tag.bone = c->read_line(true);
+				    tag.bone = c->read_line(false);
 				    script.model_tags.push_back(std::move(tag));
 				    break;
 			    }
@@ -310,15 +310,15 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
-					    event.item = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.item = c->read_line(false);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
 				    case MdsEventType::MUNITION_PLACE:
-					    event.slot = c->read_line(true);
+					    event.slot = c->read_line(false);
 					    break;
 				    case MdsEventType::SET_FIGHT_MODE: {
-					    if (auto mode = c->read_line(true); mode == "FIST") {
+					    if (auto mode = c->read_line(false); mode == "FIST") {
 						    event.fight_mode = MdsFightMode::FIST;
 					    } else if (mode == "1H" || mode == "1h") {
 						    event.fight_mode = MdsFightMode::SINGLE_HANDED;
@@ -336,14 +336,14 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
-					    event.slot2 = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.slot2 = c->read_line(false);
 					    break;
 				    case MdsEventType::HIT_LIMB:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::HIT_DIRECTION:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::SOUND_DRAW:
 				    case MdsEventType::SOUND_UNDRAW:
@@ -351,14 +351,14 @@ namespace zenkit {
 				    case MdsEventType::ITEM_DESTROY:
 				    case MdsEventType::TORCH_INVENTORY:
 				    case MdsEventType::ITEM_REMOVE:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::DAMAGE_MULTIPLIER:
 				    case MdsEventType::PARRY_FRAME:
 				    case MdsEventType::OPTIMAL_FRAME:
 				    case MdsEventType::HIT_END:
 				    case MdsEventType::COMBO_WINDOW: {
-					    auto frames = c->read_line(true);
+					    auto frames = c->read_line(false);
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-- 
2.43.0


From ac9a36b64ea05758a5ae6749d82132009851837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 082/160] fix: an animation without braces does not take the
 brace of the block around it

If it was the last one, everything up to the next closing brace was read as if it were part of the
aniEnum block, and statements of the model block after it were lost.
---
 src/ModelScriptDsl.cc | 14 ++++++++++----
 src/ModelScriptDsl.hh |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index dc17a67..db97080 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -389,9 +389,15 @@ namespace zenkit {
 		}
 	}
 
-	void MdsParser::parse_events(MdsAnimation& ani) {
+	void MdsParser::parse_events(MdsAnimation& ani, bool braces) {
 		while (!this->eof()) {
-			if (this->maybe<MdsToken::RBRACE>() || this->maybe<MdsToken::END_OF_FILE>()) {
+			if (this->maybe<MdsToken::RBRACE>()) {
+				// Without an opening brace, this one belongs to the block around the animation.
+				if (!braces) _m_stream.backtrack();
+				break;
+			}
+
+			if (this->maybe<MdsToken::END_OF_FILE>()) {
 				break;
 			}
 
@@ -518,8 +524,8 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
-		this->parse_events(ani);
+		auto const braces = this->maybe<MdsToken::LBRACE>();
+		this->parse_events(ani, braces);
 
 		return ani;
 	}
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..e403c25 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -52,7 +52,7 @@ namespace zenkit {
 		MdsSkeleton parse_meshAndTree();
 		std::string parse_registerMesh();
 		void parse_aniEnum(ModelScript& into);
-		void parse_events(MdsAnimation& ani);
+		void parse_events(MdsAnimation& ani, bool braces);
 		void ignore_block();
 		MdsEventTag parse_eventTag();
 		MdsSoundEffect parse_eventSFX();
-- 
2.43.0


From 9ac21034ef9e7c06b65dad42c3cdcd6666020284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 083/160] fix: recognise statements after aniBlend in any
 letter case

A statement like AniDisable was taken for the flags of the blend before it.
---
 src/ModelScriptDsl.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index db97080..6ccf269 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -244,7 +244,12 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		if (kw->find("ani") != std::string::npos || kw->find("model") != std::string::npos) {
+		std::string lower = *kw;
+		for (auto& c : lower) {
+			c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
+		}
+
+		if (lower.find("ani") != std::string::npos || lower.find("model") != std::string::npos) {
 			this->_m_stream.backtrack();
 			return std::nullopt;
 		}
-- 
2.43.0


From b6b09e953d562dc3c53f29f5784a1a41a16698b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:22 +0000
Subject: [PATCH 084/160] fix: going back from the end of a model script does
 not repeat the token before it

If the closing braces are missing, which is otherwise tolerated, the last token was read a second time.
---
 src/ModelScriptDsl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6ccf269..ba8291a 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -158,6 +158,7 @@ namespace zenkit {
 			return MdsToken::NOTHING;
 		}
 
+		_m_mark = _m_buffer->tell();
 		return MdsToken::END_OF_FILE;
 	}
 
-- 
2.43.0


From 888d441dcbfcb51326cc1bc7485b5d469f38bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:22 +0000
Subject: [PATCH 085/160] fix: a word or number at the very end of a model
 script is read once

Nothing follows it to go back over, so its last character was read again as a token of its own.
---
 src/ModelScriptDsl.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index ba8291a..dd2e7a5 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -64,14 +64,16 @@ namespace zenkit {
 
 			// parse keywords
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
+				auto end = _m_buffer->tell();
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					end = _m_buffer->tell();
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
 
-				// (backtrack one)
-				_m_buffer->seek(-1, Whence::CUR);
+				// (backtrack to the end of the keyword)
+				_m_buffer->seek(static_cast<ssize_t>(end), Whence::BEG);
 				_m_column -= 1;
 
 				return MdsToken::KEYWORD;
@@ -120,9 +122,11 @@ namespace zenkit {
 			// parse numbers
 			if (std::isdigit(chr) || chr == '-') {
 				bool floating_point = false;
+				auto end = _m_buffer->tell();
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					end = _m_buffer->tell();
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 
@@ -131,13 +135,14 @@ namespace zenkit {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
+						end = _m_buffer->tell();
 						chr = static_cast<unsigned char>(_m_buffer->read_char());
 						_m_column += 1;
 					}
 				} while (std::isdigit(chr));
 
-				// (backtrack one)
-				_m_buffer->seek(-1, Whence::CUR);
+				// (backtrack to the end of the number)
+				_m_buffer->seek(static_cast<ssize_t>(end), Whence::BEG);
 				_m_column -= 1;
 
 				return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
-- 
2.43.0


From 2c1cdd07ce14cb355c5b81408e4db4c48865da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:25 +0000
Subject: [PATCH 086/160] fix: keep the parent of a constant string when no
 other endpoint is found

The fallback went back to the position after the parent and read it again,
which consumed the first four bytes of the next symbol.
---
 src/DaedalusScript.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..d67fd46 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -401,9 +401,8 @@ namespace zenkit {
 			}
 
 			if (byte == 0) {
-				// We didn't find any match.
+				// We didn't find any match, so the parent read first is the right one.
 				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
-				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
 		}
-- 
2.43.0


From 2c8721fc544a567a06a574878cf067e569ab1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:25 +0000
Subject: [PATCH 087/160] fix: find the local variables of the last function in
 a script

---
 src/DaedalusScript.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index d67fd46..178f3ff 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -207,7 +207,8 @@ namespace zenkit {
 			}
 			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
 		}
-		return {};
+		if (first >= _m_symbols.size()) return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.end());
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-- 
2.43.0


From 92cae416cc46bac63381977f5a315690353e1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:25 +0000
Subject: [PATCH 088/160] fix: refuse access to the value of a constant
 function, which has none

---
 src/DaedalusScript.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 178f3ff..6de58bd 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -478,7 +478,13 @@ namespace zenkit {
 			return *get_member_ptr<std::int32_t>(index, context);
 		}
 
-		return std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index];
+		auto const& value = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+		if (value == nullptr) {
+			// A constant function does not have a value.
+			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+		}
+
+		return value[index];
 	}
 
 	void DaedalusSymbol::set_string(std::string_view value, std::uint16_t index, DaedalusInstance* context) {
@@ -552,7 +558,13 @@ namespace zenkit {
 
 			*get_member_ptr<std::int32_t>(index, context) = value;
 		} else {
-			std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index] = value;
+			auto const& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+			if (values == nullptr) {
+				// A constant function does not have a value.
+				throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+			}
+
+			values[index] = value;
 		}
 	}
 
-- 
2.43.0


From 6e794e12f83d5ad94a896301da9fd1d76ebbe602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:25 +0000
Subject: [PATCH 089/160] fix: initialise function variables and allocate all
 of their elements

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 6de58bd..cea9a33 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -370,7 +370,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[this->_m_count] {});
 				}
 				this->_m_address = r->read_int();
 				break;
-- 
2.43.0


From d407e89def8930742535225c660a18e794480f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:23 +0000
Subject: [PATCH 090/160] fix: wrap script integers instead of overflowing

Dividing the smallest integer by minus one killed the process.
---
 src/DaedalusVm.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..91ccf45 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -75,6 +75,11 @@ namespace zenkit {
 		bool _m_inhibited {false};
 	};
 
+	// Script integers wrap around at 32 bits.
+	static std::int32_t wrap(std::int64_t value) {
+		return static_cast<std::int32_t>(static_cast<std::uint32_t>(value));
+	}
+
 	DaedalusVm::DaedalusVm(DaedalusScript&& scr, std::uint8_t flags) : DaedalusScript(std::move(scr)), _m_flags(flags) {
 		_m_temporary_strings = add_temporary_strings_symbol();
 		_m_temporary_strings_free.push(0);
@@ -135,15 +140,19 @@ namespace zenkit {
 
 			switch (instr.op) {
 			case DaedalusOpcode::ADD:
-				push_int(pop_int() + pop_int());
+				a = pop_int();
+				b = pop_int();
+				push_int(wrap(std::int64_t {a} + b));
 				break;
 			case DaedalusOpcode::SUB:
 				a = pop_int();
 				b = pop_int();
-				push_int(a - b);
+				push_int(wrap(std::int64_t {a} - b));
 				break;
 			case DaedalusOpcode::MUL:
-				push_int(pop_int() * pop_int());
+				a = pop_int();
+				b = pop_int();
+				push_int(wrap(std::int64_t {a} * b));
 				break;
 			case DaedalusOpcode::DIV:
 				a = pop_int();
@@ -151,7 +160,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a / b);
+				push_int(wrap(std::int64_t {a} / b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
@@ -159,7 +168,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a % b);
+				push_int(wrap(std::int64_t {a} % b));
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -207,7 +216,7 @@ namespace zenkit {
 				push_int(+pop_int());
 				break;
 			case DaedalusOpcode::NEGATE:
-				push_int(-pop_int());
+				push_int(wrap(-std::int64_t {pop_int()}));
 				break;
 			case DaedalusOpcode::NOT:
 				push_int(!pop_int());
@@ -327,7 +336,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) + value;
+					auto result = wrap(std::int64_t {ref->get_int(idx, context.get())} + value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
@@ -345,7 +354,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) - value;
+					auto result = wrap(std::int64_t {ref->get_int(idx, context.get())} - value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
@@ -362,7 +371,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) * value;
+					auto result = wrap(std::int64_t {ref->get_int(idx, context.get())} * value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
@@ -384,7 +393,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
+					auto result = wrap(std::int64_t {ref->get_int(idx, context.get())} / value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
-- 
2.43.0


From 2315263db51c55f1488ee9d2164afa815d929f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:23 +0000
Subject: [PATCH 091/160] fix: keep the arguments apart when saving local
 variables on recursion

Moving them upwards from the front overwrote later arguments if there were
more arguments than saved values.
---
 src/DaedalusVm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 91ccf45..4cd7da4 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -557,8 +557,8 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
-			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
+		for (size_t i = params.size(); locals_size > 0 && i > 0; --i) {
+			_m_stack[_m_stack_ptr + locals_size + i - 1] = std::move(_m_stack[_m_stack_ptr + i - 1]);
 		}
 
 		for (auto& l : locals) {
-- 
2.43.0


From 2f3f8c6f9e8387c42c8b1b8929ff66ff5ee032d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:23 +0000
Subject: [PATCH 092/160] fix: return the value of a local variable which is
 restored after recursion

The reference on the stack was resolved after the caller's value of the
variable had been restored, so the caller got its own value back.
---
 src/DaedalusVm.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 4cd7da4..ceac7af 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -606,12 +606,28 @@ namespace zenkit {
 			return;
 		}
 
+		auto locals = this->find_locals_for_function(sym);
+
 		DaedalusStackFrame ret;
 		if (sym->has_return()) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
+
+			// If a local variable is returned, take its value before the variable is restored.
+			auto* local = ret.reference ? std::get<DaedalusSymbol*>(ret.value) : nullptr;
+			if (local != nullptr && local >= locals.data() && local < locals.data() + locals.size()) {
+				if (local->type() == DaedalusDataType::STRING) {
+					push_string(std::string {local->get_string(ret.index)});
+				} else if (local->type() == DaedalusDataType::FLOAT) {
+					push_float(local->get_float(ret.index));
+				} else if (local->type() == DaedalusDataType::INSTANCE) {
+					push_instance(local->get_instance());
+				} else {
+					push_int(local->get_int(ret.index));
+				}
+				ret = std::move(_m_stack[--_m_stack_ptr]);
+			}
 		}
 
-		auto locals = this->find_locals_for_function(sym);
 		for (size_t i = locals.size(); i > 0;) {
 			--i;
 			auto& l = locals[i];
-- 
2.43.0


From d975fb4dbdc560e9adbd27d34cc4fa0efad2e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:09 +0000
Subject: [PATCH 093/160] fix: do not cut off the index of temporary strings at
 8 bits

With more than 256 temporary strings in use, references to the later ones
read the wrong string.
---
 include/zenkit/DaedalusVm.hh | 4 ++--
 src/DaedalusVm.cc            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..3d52749 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -320,14 +320,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index ceac7af..0bdddf1 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -676,7 +676,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -754,7 +754,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
-- 
2.43.0


From e1c718b1aaea2ef16dac8704fcdb5263f7606910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:09 +0000
Subject: [PATCH 094/160] fix: release temporary strings and instances dropped
 from the stack

Return values which nobody uses kept their temporary string forever.
---
 include/zenkit/DaedalusVm.hh |  6 +++++-
 src/DaedalusVm.cc            | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3d52749..8be8bee 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -154,7 +154,7 @@ namespace zenkit {
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
 				if (sym->has_return()) {
 					// Make sure to still pop the return value off of the stack.
-					_m_stack_ptr--;
+					drop_stack(_m_stack_ptr - 1);
 				}
 
 				return {};
@@ -718,6 +718,10 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Discards all values above the given stack position.
+		/// \param stack_ptr The stack position to go back to.
+		ZKAPI void drop_stack(std::uint32_t stack_ptr);
+
 		/// \brief Pushes a function local variables onto the call stack.
 		///
 		/// Part of #push_call implementation
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0bdddf1..b1f781b 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -478,7 +478,7 @@ namespace zenkit {
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
-			_m_stack_ptr = call.stack_ptr;
+			drop_stack(call.stack_ptr);
 		} else {
 			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
 			if (remaining_locals == 0) {
@@ -488,8 +488,8 @@ namespace zenkit {
 			} else if (remaining_locals > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
-				DaedalusStackFrame frame = _m_stack[--_m_stack_ptr];
-				_m_stack_ptr = call.stack_ptr;
+				DaedalusStackFrame frame = std::move(_m_stack[--_m_stack_ptr]);
+				drop_stack(call.stack_ptr);
 				_m_stack[_m_stack_ptr++] = std::move(frame);
 			}
 			// else {
@@ -509,6 +509,18 @@ namespace zenkit {
 		_m_call_stack.pop_back();
 	}
 
+	void DaedalusVm::drop_stack(std::uint32_t stack_ptr) {
+		while (_m_stack_ptr > stack_ptr) {
+			DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+
+			if (v.reference && std::get<DaedalusSymbol*>(v.value)->index() == _m_temporary_strings->index()) {
+				this->mark_free_string(v.index);
+			}
+		}
+
+		_m_stack_ptr = static_cast<std::uint16_t>(stack_ptr);
+	}
+
 	void DaedalusVm::push_local_variables(DaedalusSymbol const* sym) {
 		bool has_recursion = false;
 		for (auto& i : _m_call_stack) {
-- 
2.43.0


From 778f4320d5dd3a7f66b2cb48f832e315205913a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:39 +0000
Subject: [PATCH 095/160] fix: restore the caller's state when a call is left
 by an exception

The call frame, arguments and temporary values stayed behind. If the exception
handler chose to continue, the next return used the stale frame and execution
went on at the wrong place. Missing arguments made the stack pointer wrap.
---
 include/zenkit/DaedalusVm.hh | 12 ++++++-
 src/DaedalusVm.cc            | 70 ++++++++++++++++++++++++++++--------
 2 files changed, 66 insertions(+), 16 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 8be8bee..d6ab44a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -731,7 +731,15 @@ namespace zenkit {
 		/// \brief Pops a function-local variables from the call stack.
 		///
 		/// Part of #pop_call implementation
-		ZKINT void pop_local_variables(DaedalusSymbol const* sym);
+		/// \param has_value Whether the return value is on top of the stack.
+		ZKINT void pop_local_variables(DaedalusSymbol const* sym, bool has_value);
+
+		/// \brief Leaves calls which have not been completed, restoring the state of their callers.
+		/// \param depth The number of calls to keep on the call stack.
+		ZKINT void unwind_calls(std::size_t depth);
+
+		/// \return The position of the stack without the arguments of the given function.
+		[[nodiscard]] ZKINT std::uint32_t stack_ptr_before(DaedalusSymbol const* sym) const;
 
 		/// \brief Checks that the type of each symbol in the given set of defined symbols matches the given type
 		/// parameters.
@@ -1001,6 +1009,8 @@ namespace zenkit {
 		uint32_t get_free_string();
 
 	private:
+		friend struct StackGuard;
+
 		std::array<DaedalusStackFrame, stack_size> _m_stack;
 		uint16_t _m_stack_ptr {0};
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index b1f781b..e2ac972 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -26,8 +26,10 @@ namespace zenkit {
 	struct StackGuard {
 		/// \brief Creates a new stack guard.
 		/// \param machine The VM this instance is guarding.
-		/// \param type The type of value to push if the guard is triggered.
-		StackGuard(DaedalusVm* machine, DaedalusDataType type) : _m_type(type), _m_machine(machine) {}
+		/// \param function The function being called. A value of its return type is pushed if the guard is triggered.
+		StackGuard(DaedalusVm* machine, DaedalusSymbol const* function)
+		    : _m_type(function->rtype()), _m_machine(machine), _m_call_depth(machine->_m_call_stack.size()),
+		      _m_stack_ptr(machine->stack_ptr_before(function)) {}
 
 		/// \brief Triggers this guard.
 		///
@@ -36,7 +38,13 @@ namespace zenkit {
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			// Leave all calls which have not been completed and remove the arguments.
+			_m_machine->unwind_calls(_m_call_depth);
+			_m_machine->drop_stack(_m_stack_ptr);
+
+			if (_m_stack_ptr < DaedalusVm::stack_size) {
+				StackGuard::fix(_m_machine, _m_type);
+			}
 		}
 
 		/// \brief Inhibits this guard.
@@ -72,6 +80,8 @@ namespace zenkit {
 	private:
 		DaedalusDataType _m_type;
 		DaedalusVm* _m_machine;
+		std::size_t _m_call_depth;
+		std::uint32_t _m_stack_ptr;
 		bool _m_inhibited {false};
 	};
 
@@ -109,12 +119,20 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
+		auto call_depth = _m_call_stack.size();
 		push_call(sym);
-		jump(sym->address());
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+		try {
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
+		} catch (...) {
+			// the call failed, so restore the state of the caller
+			unwind_calls(call_depth);
+			throw;
+		}
 
 		pop_call();
 	}
@@ -244,7 +262,7 @@ namespace zenkit {
 				sym = find_symbol_by_address(instr.address);
 				if (auto cb = _m_function_overrides.find(instr.address); cb != _m_function_overrides.end()) {
 					// Guard against exceptions during external invocation.
-					StackGuard guard {this, sym->rtype()};
+					StackGuard guard {this, sym};
 					// Call maybe naked.
 					cb->second(*this);
 					// The stack is left intact.
@@ -254,7 +272,10 @@ namespace zenkit {
 						throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
 					}
 
+					// Guard against exceptions during the call.
+					StackGuard guard {this, sym};
 					unsafe_call(sym);
+					guard.inhibit();
 				}
 
 				break;
@@ -266,7 +287,7 @@ namespace zenkit {
 				}
 
 				// Guard against exceptions during external invocation.
-				StackGuard guard {this, sym->rtype()};
+				StackGuard guard {this, sym};
 
 				auto cb = _m_externals.find(sym);
 				if (cb == _m_externals.end()) {
@@ -467,8 +488,27 @@ namespace zenkit {
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-		auto var_count = this->find_parameters_for_function(sym).size();
-		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
+		_m_call_stack.push_back({sym, _m_pc, stack_ptr_before(sym), _m_instance});
+	}
+
+	std::uint32_t DaedalusVm::stack_ptr_before(DaedalusSymbol const* sym) const {
+		auto var_count = static_cast<std::uint32_t>(this->find_parameters_for_function(sym).size());
+		return _m_stack_ptr < var_count ? 0 : _m_stack_ptr - var_count;
+	}
+
+	void DaedalusVm::unwind_calls(std::size_t depth) {
+		while (_m_call_stack.size() > depth) {
+			auto const& call = _m_call_stack.back();
+			drop_stack(call.stack_ptr);
+
+			if (call.function->has_local_variables_enabled()) {
+				pop_local_variables(call.function, false);
+			}
+
+			_m_pc = call.program_counter;
+			_m_instance = call.context;
+			_m_call_stack.pop_back();
+		}
 	}
 
 	void DaedalusVm::pop_call() {
@@ -500,7 +540,7 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function);
+			pop_local_variables(call.function, call.function->has_return());
 		}
 
 		// Second, reset PC and context, then remove the call stack frame
@@ -606,7 +646,7 @@ namespace zenkit {
 		_m_stack_ptr += params.size();
 	}
 
-	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym) {
+	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym, bool has_value) {
 		int has_recursion = 0;
 		for (auto& i : _m_call_stack) {
 			if (i.function == sym) {
@@ -621,7 +661,7 @@ namespace zenkit {
 		auto locals = this->find_locals_for_function(sym);
 
 		DaedalusStackFrame ret;
-		if (sym->has_return()) {
+		if (has_value) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
 
 			// If a local variable is returned, take its value before the variable is restored.
@@ -675,7 +715,7 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (has_value) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From 30f6c1c33f875b5f836519d36b54baee3c4b85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:39 +0000
Subject: [PATCH 096/160] fix: do not read below the stack if a function took
 too many values off it

---
 src/DaedalusVm.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index e2ac972..0c948a6 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -520,10 +520,11 @@ namespace zenkit {
 			// this function, so just reset the stack for the caller.
 			drop_stack(call.stack_ptr);
 		} else {
-			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
-			if (remaining_locals == 0) {
+			auto remaining_locals = static_cast<std::int32_t>(_m_stack_ptr) - static_cast<std::int32_t>(call.stack_ptr);
+			if (remaining_locals <= 0) {
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
+				_m_stack_ptr = static_cast<std::uint16_t>(call.stack_ptr);
 				StackGuard::fix(this, call.function->rtype());
 			} else if (remaining_locals > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
-- 
2.43.0


From 8a2abb89dc9826952a5f78902c46dfa71a77c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:39 +0000
Subject: [PATCH 097/160] fix: do not wrap the stack pointer when ignoring a
 missing return value

---
 include/zenkit/DaedalusVm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index d6ab44a..661533b 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -152,7 +152,7 @@ namespace zenkit {
 			unsafe_call(sym);
 
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
-				if (sym->has_return()) {
+				if (sym->has_return() && _m_stack_ptr > 0) {
 					// Make sure to still pop the return value off of the stack.
 					drop_stack(_m_stack_ptr - 1);
 				}
-- 
2.43.0


From 50c52399466a795092ee2b7ef848aa6d873d7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:52 +0000
Subject: [PATCH 098/160] fix: keep the string arguments of an external for the
 duration of the call

---
 include/zenkit/DaedalusVm.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 661533b..3b199ca 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -890,6 +890,12 @@ namespace zenkit {
 			}
 		}
 
+		/// \brief The type used for keeping an argument of an external while it is being called.
+		///
+		/// The contents of strings are copied since the string they refer to might change during the call.
+		template <typename T>
+		using ExternalArgument = std::conditional_t<std::same_as<T, std::string_view>, std::string, T>;
+
 		/// \brief The given types in reverse order using #pop_value_for_external.
 		///
 		/// This is used to pop values from the stack in the correct order for calling an external function
@@ -901,14 +907,14 @@ namespace zenkit {
 		/// \tparam Px more value types to pop.
 		/// \return
 		template <typename P, typename... Px>
-		std::tuple<P, Px...> pop_values_for_external() {
+		std::tuple<ExternalArgument<P>, ExternalArgument<Px>...> pop_values_for_external() {
 			// TODO: find a way to actually retain constref-ness of strings and instances through this chain of
 			//  tuple-making
 			if constexpr (sizeof...(Px) > 0) {
 				auto v = pop_values_for_external<Px...>();
-				return std::tuple_cat(std::make_tuple(pop_value_for_external<P>()), std::move(v));
+				return std::tuple_cat(std::make_tuple(ExternalArgument<P> {pop_value_for_external<P>()}), std::move(v));
 			} else {
-				return {pop_value_for_external<P>()};
+				return {ExternalArgument<P> {pop_value_for_external<P>()}};
 			}
 		}
 
-- 
2.43.0


From a4b28b132f19fef427885927e8816054d9bffa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 099/160] fix: the default external takes function arguments
 and returns functions

---
 src/DaedalusVm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0c948a6..f28f418 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -890,7 +890,7 @@ namespace zenkit {
 			auto params = find_parameters_for_function(&sym);
 			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
 				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
+				if (par.type() == DaedalusDataType::INT || par.type() == DaedalusDataType::FUNCTION)
 					(void) v.pop_int();
 				else if (par.type() == DaedalusDataType::FLOAT)
 					(void) v.pop_float();
@@ -901,7 +901,7 @@ namespace zenkit {
 			if (sym.has_return()) {
 				if (sym.rtype() == DaedalusDataType::FLOAT)
 					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
+				else if (sym.rtype() == DaedalusDataType::INT || sym.rtype() == DaedalusDataType::FUNCTION)
 					v.push_int(0);
 				else if (sym.rtype() == DaedalusDataType::STRING)
 					v.push_string("");
-- 
2.43.0


From eae9fc0510765eff239f6f382ff5e47a29387b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 100/160] fix: the default external takes instances which are
 not stored in a variable

---
 src/DaedalusVm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f28f418..5257cd4 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -894,7 +894,9 @@ namespace zenkit {
 					(void) v.pop_int();
 				else if (par.type() == DaedalusDataType::FLOAT)
 					(void) v.pop_float();
-				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
+				else if (par.type() == DaedalusDataType::INSTANCE)
+					(void) v.pop_instance();
+				else if (par.type() == DaedalusDataType::STRING)
 					(void) v.pop_reference();
 			}
 
-- 
2.43.0


From 4dfc188d1ba6dca9da35ec75813db4e769810aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 101/160] fix: a call may return any instance if the type of
 instance does not matter

---
 include/zenkit/DaedalusVm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3b199ca..0db6119 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -984,7 +984,7 @@ namespace zenkit {
 			if constexpr (DaedalusInstancePointer<R>) {
 				auto r = pop_instance();
 
-				if (r != nullptr) {
+				if (r != nullptr && !std::same_as<R, std::shared_ptr<DaedalusInstance>>) {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-- 
2.43.0


From 0c156058cb93631deb818167ab09c5ab12623389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 102/160] fix: take arguments off the stack again if a call is
 refused

---
 include/zenkit/DaedalusVm.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 0db6119..9f0acc3 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -146,7 +146,15 @@ namespace zenkit {
 			}
 
 			if constexpr (sizeof...(P) > 0) {
-				push_call_parameters<0, P...>(params, args...);
+				auto stack_ptr = _m_stack_ptr;
+
+				try {
+					push_call_parameters<0, P...>(params, args...);
+				} catch (...) {
+					// Do not leave the arguments before the illegal one on the stack.
+					drop_stack(stack_ptr);
+					throw;
+				}
 			}
 
 			unsafe_call(sym);
-- 
2.43.0


From 62bd74c857b978093301ac13b738856324b184b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 103/160] fix: host functions may return functions as
 documented

---
 include/zenkit/DaedalusVm.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 9f0acc3..811c94a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -434,7 +434,8 @@ namespace zenkit {
 				} else if constexpr (std::floating_point<R>) {
 					if (sym->rtype() != DaedalusDataType::FLOAT) throw DaedalusIllegalExternalReturnType(sym, "float");
 				} else if constexpr (std::convertible_to<int32_t, R>) {
-					if (sym->rtype() != DaedalusDataType::INT) throw DaedalusIllegalExternalReturnType(sym, "int");
+					if (sym->rtype() != DaedalusDataType::INT && sym->rtype() != DaedalusDataType::FUNCTION)
+						throw DaedalusIllegalExternalReturnType(sym, "int");
 				} else if constexpr (std::convertible_to<std::string, R>) {
 					if (sym->rtype() != DaedalusDataType::STRING)
 						throw DaedalusIllegalExternalReturnType(sym, "string");
@@ -521,7 +522,8 @@ namespace zenkit {
 				} else if constexpr (std::floating_point<R>) {
 					if (sym->rtype() != DaedalusDataType::FLOAT) throw DaedalusIllegalExternalReturnType(sym, "float");
 				} else if constexpr (std::convertible_to<int32_t, R>) {
-					if (sym->rtype() != DaedalusDataType::INT) throw DaedalusIllegalExternalReturnType(sym, "int");
+					if (sym->rtype() != DaedalusDataType::INT && sym->rtype() != DaedalusDataType::FUNCTION)
+						throw DaedalusIllegalExternalReturnType(sym, "int");
 				} else if constexpr (std::convertible_to<std::string, R>) {
 					if (sym->rtype() != DaedalusDataType::STRING)
 						throw DaedalusIllegalExternalReturnType(sym, "string");
-- 
2.43.0


From a0c593696b75b080d810c885e94c8712dbda4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 104/160] fix: do not access the type of an instance which has
 none for an error message

---
 include/zenkit/DaedalusVm.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 811c94a..7ad8544 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -812,8 +812,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -830,8 +830,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -998,8 +998,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From 339d3397df49e57e8e9a3acf7a0f889062975555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 105/160] fix: return the function a call results in

---
 include/zenkit/DaedalusVm.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 7ad8544..4a95076 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -1015,6 +1015,8 @@ namespace zenkit {
 				return pop_int();
 			} else if constexpr (std::same_as<std::string, R>) {
 				return pop_string();
+			} else if constexpr (std::same_as<DaedalusFunction, R>) {
+				return pop_value_for_external<R>();
 			}
 		}
 
-- 
2.43.0


From 483e1e141a8c86e96eb33d45340f55166e3b7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:19 +0000
Subject: [PATCH 106/160] fix: refuse access to instances as class members with
 a script error

---
 src/DaedalusScript.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index cea9a33..3ce521f 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -572,6 +572,10 @@ namespace zenkit {
 		if (type() != DaedalusDataType::INSTANCE) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
 		}
+		if (is_member()) {
+			// Instances are not supported as members.
+			throw DaedalusUnboundMemberAccess(this);
+		}
 
 		return std::get<std::shared_ptr<DaedalusInstance>>(_m_value);
 	}
@@ -580,6 +584,9 @@ namespace zenkit {
 		if (type() != DaedalusDataType::INSTANCE) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
 		}
+		if (is_member()) {
+			throw DaedalusUnboundMemberAccess(this);
+		}
 
 		std::get<std::shared_ptr<DaedalusInstance>>(_m_value) = inst;
 	}
-- 
2.43.0


From d102d33a2f81679090455dc01f738a6fa259bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:19 +0000
Subject: [PATCH 107/160] fix: printing a stack trace does not fail on values
 it can not access

---
 src/DaedalusVm.cc | 65 +++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 5257cd4..1eba6ca 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -956,32 +956,38 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, v.context.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, v.context.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym != nullptr ? "&" + sym->name() : "<invalid function>";
+						break;
 					}
-					break;
-				}
-				default:
-					value = "<invalid stack frame>";
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst != nullptr) {
+							value = inst->_m_type != nullptr ? "<instance of '" + std::string(inst->_m_type->name()) + "'>"
+							                                 : "<instance>";
+						} else {
+							value = "NULL";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (DaedalusScriptError const&) {
+					// The value of this variable can't be accessed.
+					value = "<inaccessible>";
 				}
 
 				ZKLOGE("DaedalusVm",
@@ -1002,7 +1008,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       inst->_m_type != nullptr ? inst->_m_type->name() : "unknown");
 					}
 				}
 			}
@@ -1027,7 +1033,7 @@ namespace zenkit {
 				ZKLOGE("DaedalusVm",
 				       "%s = %s (%u)",
 				       sym->name().c_str(),
-				       instance_symbol->name().c_str(),
+				       instance_symbol != nullptr ? instance_symbol->name().c_str() : "<UNKNOWN>",
 				       instance->symbol_index());
 			} else if (instance == nullptr) {
 				ZKLOGE("DaedalusVm", "%s = NULL", sym->name().c_str());
@@ -1038,7 +1044,10 @@ namespace zenkit {
 
 		if (_m_instance != nullptr && _m_instance->symbol_index() != static_cast<uint32_t>(-1)) {
 			auto instance_symbol = find_symbol_by_instance(_m_instance);
-			ZKLOGE("DaedalusVm", "<__THIS__> = %s (%u)", instance_symbol->name().c_str(), _m_instance->symbol_index());
+			ZKLOGE("DaedalusVm",
+			       "<__THIS__> = %s (%u)",
+			       instance_symbol != nullptr ? instance_symbol->name().c_str() : "<UNKNOWN>",
+			       _m_instance->symbol_index());
 		} else if (_m_instance == nullptr) {
 			ZKLOGE("DaedalusVm", "<__THIS__> = NULL");
 		} else {
-- 
2.43.0


From de06389cc9c685babf6727ad760762b9a3c47b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 108/160] fix: restore self and the current instance if
 initialising an instance fails

---
 include/zenkit/DaedalusVm.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 4a95076..e424618 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -229,11 +229,20 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			auto reset = [&] {
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+			};
+
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				reset();
+				throw;
+			}
 
 			// reset the VM state
-			_m_instance = old_instance;
-			if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+			reset();
 		}
 
 		std::shared_ptr<DaedalusInstance> init_opaque_instance(DaedalusSymbol* sym);
-- 
2.43.0


From e5d7661968624554b97dc6e7868e0c634ed01900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 109/160] fix: a member which can not be registered does not
 bind its class to the host type

---
 include/zenkit/DaedalusScript.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..d030306 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -925,9 +925,7 @@ namespace zenkit {
 			auto* parent = find_symbol_by_index(sym->parent());
 			if (parent == nullptr) throw DaedalusMemberRegistrationError {sym, "no parent found"};
 
-			if (parent->_m_registered_to == nullptr) {
-				parent->_m_registered_to = type;
-			} else if (parent->_m_registered_to != type) {
+			if (parent->_m_registered_to != nullptr && parent->_m_registered_to != type) {
 				throw DaedalusMemberRegistrationError {sym,
 				                                       "parent class is already registered with a different type (" +
 				                                           std::string {parent->_m_registered_to->name()} + ")"};
@@ -945,6 +943,7 @@ namespace zenkit {
 				throw DaedalusInvalidRegistrationDataType {sym, "<unknown>"};
 			}
 
+			parent->_m_registered_to = type;
 			return sym;
 		}
 
-- 
2.43.0


From 8057c78406015d84b4b1d1111c4abc45d599ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 110/160] fix: the host type of symbols which are not
 registered may be queried

---
 include/zenkit/DaedalusScript.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index d030306..0a1896d 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -677,7 +677,7 @@ namespace zenkit {
 		}
 
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
-			return *_m_registered_to;
+			return _m_registered_to != nullptr ? *_m_registered_to : typeid(void);
 		}
 
 		ZKAPI void grow(uint32_t n);
-- 
2.43.0


From 6e14f54d8d23712be2a542939e7e02d1d26cc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 111/160] fix: refuse to allocate instances whose prototype has
 no class

---
 include/zenkit/DaedalusVm.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index e424618..994d7ac 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -319,11 +319,11 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
-			if (parent->registered_to() != typeid(_instance_t)) {
+			if (parent == nullptr || parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
 				                           "registered to a different instance class"};
-- 
2.43.0


From b2c646f0e51d17459cd756e80ced8ced6aa8c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 112/160] fix: refuse to initialise opaque instances without a
 symbol

---
 src/DaedalusVm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 1eba6ca..f6de943 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -102,6 +102,10 @@ namespace zenkit {
 	}
 
 	std::shared_ptr<DaedalusInstance> DaedalusVm::init_opaque_instance(DaedalusSymbol* sym) {
+		if (sym == nullptr) {
+			throw DaedalusVmException {"Cannot init instance: not found"};
+		}
+
 		auto cls = sym;
 		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
 			cls = find_symbol_by_index(cls->parent());
-- 
2.43.0


From 62bd8b95224e20c24083065c0d125e1406a0e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 113/160] fix: do not create opaque instances of classes which
 have no opaque layout

---
 src/DaedalusVm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f6de943..0b2e498 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -116,6 +116,10 @@ namespace zenkit {
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 		}
 
+		if (cls->registered_to() != typeid(DaedalusOpaqueInstance)) {
+			throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class is not registered as opaque"};
+		}
+
 		// create the instance
 		auto inst = std::make_shared<DaedalusOpaqueInstance>(*cls, find_class_members(*cls));
 		init_instance(inst, sym);
-- 
2.43.0


From 1693234aa976d105f575a5e74fe0b3ee993de22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 114/160] fix: refuse to register a class which does not exist
 as opaque

---
 include/zenkit/DaedalusScript.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 0a1896d..9c5831c 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -904,7 +904,9 @@ namespace zenkit {
 		[[nodiscard]] ZKAPI std::vector<DaedalusSymbol*> find_class_members(DaedalusSymbol const& cls);
 
 		ZKAPI void register_as_opaque(std::string_view class_name) {
-			return register_as_opaque(find_symbol_by_name(class_name));
+			auto* sym = find_symbol_by_name(class_name);
+			if (sym == nullptr) throw DaedalusSymbolNotFound {std::string {class_name}};
+			return register_as_opaque(sym);
 		}
 
 		void register_as_opaque(DaedalusSymbol* sym);
-- 
2.43.0


From 32c55c05d2948a8ab728062f0bb665267a1614bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 115/160] fix: refuse member access on instances which have not
 been allocated

---
 include/zenkit/DaedalusScript.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 9c5831c..22a5117 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -686,6 +686,7 @@ namespace zenkit {
 		template <typename T>
 		T const* get_member_ptr(std::uint16_t index, DaedalusInstance const* context) const {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
+			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(DaedalusInstance)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
 
 			auto data_ptr = context->data();
@@ -696,6 +697,7 @@ namespace zenkit {
 		template <typename T>
 		T* get_member_ptr(std::uint16_t index, DaedalusInstance* context) {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
+			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(DaedalusInstance)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
 
 			auto data_ptr = context->data();
-- 
2.43.0


From 20b4299f7d18850cfa0d94d6f1eb8d769db4046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 116/160] fix: read elements beyond 255 of float members

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 3ce521f..25fa5fd 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -451,7 +451,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From d6904b4175d4bca96f20caf93df49d609f4debbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 117/160] fix: refuse access to members of one opaque class in
 instances of another

---
 include/zenkit/DaedalusScript.hh | 13 ++++++++++++-
 src/DaedalusScript.cc            |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 22a5117..ca16c81 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -314,7 +314,7 @@ namespace zenkit {
 		ZKAPI ~DaedalusOpaqueInstance() override;
 
 	protected:
-		friend class symbol;
+		friend class DaedalusSymbol;
 
 		ZKAPI std::uint8_t* data() override {
 			return _m_storage.get();
@@ -330,6 +330,7 @@ namespace zenkit {
 
 		std::unique_ptr<std::uint8_t[]> _m_storage;
 		std::vector<std::string*> _m_strings;
+		std::uint32_t _m_class_index;
 	};
 
 	/// \brief Represents object instance in the script with no defined backing to memory.
@@ -688,6 +689,11 @@ namespace zenkit {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
 			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(DaedalusInstance)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			if (*_m_registered_to == typeid(DaedalusOpaqueInstance)) {
+				// All opaque classes are registered to the same type.
+				auto cls = static_cast<DaedalusOpaqueInstance const*>(context)->_m_class_index;
+				if (cls != parent()) throw DaedalusIllegalInstanceAccess {this, cls};
+			}
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
@@ -699,6 +705,11 @@ namespace zenkit {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
 			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(DaedalusInstance)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			if (*_m_registered_to == typeid(DaedalusOpaqueInstance)) {
+				// All opaque classes are registered to the same type.
+				auto cls = static_cast<DaedalusOpaqueInstance const*>(context)->_m_class_index;
+				if (cls != parent()) throw DaedalusIllegalInstanceAccess {this, cls};
+			}
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 25fa5fd..58dfe0d 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -639,7 +639,8 @@ namespace zenkit {
 	}
 
 	DaedalusOpaqueInstance::DaedalusOpaqueInstance(DaedalusSymbol const& sym,
-	                                               std::vector<DaedalusSymbol*> const& members) {
+	                                               std::vector<DaedalusSymbol*> const& members)
+	    : _m_class_index(sym.index()) {
 		size_t str_count = 0;
 		for (auto* member : members) {
 			if (member->type() != DaedalusDataType::STRING) continue;
-- 
2.43.0


From e46702605b55af78a4696ce76660cf6e50e7046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 118/160] fix: find the members of classes with other bases
 before the instance

---
 include/zenkit/DaedalusScript.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index ca16c81..242472c 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -787,9 +787,12 @@ namespace zenkit {
 			auto* type = &typeid(_class);
 			auto* sym = _check_member<_member, N>(name, type);
 
-			_class* base = nullptr;
+			// The offset is relative to the instance itself, which is not necessarily the first base of the class.
+			auto* base = reinterpret_cast<_class*>(alignof(std::max_align_t));
 			auto member = &(base->*field);
-			sym->_m_member_offset = reinterpret_cast<std::uint64_t>(member) & 0xFFFFFFFF;
+			auto* instance = static_cast<DaedalusInstance*>(base);
+			sym->_m_member_offset =
+			    (reinterpret_cast<std::uint64_t>(member) - reinterpret_cast<std::uint64_t>(instance)) & 0xFFFFFFFF;
 			sym->_m_registered_to = type;
 		}
 
@@ -806,9 +809,12 @@ namespace zenkit {
 			auto* type = &typeid(_class);
 			auto* sym = _check_member<_member, 1>(name, type);
 
-			_class* base = nullptr;
+			// The offset is relative to the instance itself, which is not necessarily the first base of the class.
+			auto* base = reinterpret_cast<_class*>(alignof(std::max_align_t));
 			auto member = &(base->*field);
-			sym->_m_member_offset = reinterpret_cast<std::uint64_t>(member) & 0xFFFFFFFF;
+			auto* instance = static_cast<DaedalusInstance*>(base);
+			sym->_m_member_offset =
+			    (reinterpret_cast<std::uint64_t>(member) - reinterpret_cast<std::uint64_t>(instance)) & 0xFFFFFFFF;
 			sym->_m_registered_to = type;
 		}
 
-- 
2.43.0


From 35ed1bdc0f6c55118ba7d8671fa41cff8499f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 119/160] fix: refuse binsafe archives with hash tables and
 keys out of range

---
 src/Internal.hh               | 12 ++++++++++++
 src/Misc.cc                   | 15 +++++++++++++++
 src/archive/ArchiveBinsafe.cc |  9 +++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/Internal.hh b/src/Internal.hh
index f64ba71..19b375e 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -4,6 +4,18 @@
 #include "zenkit/Logger.hh"
 #include <cstdint>
 
+namespace zenkit {
+	class Read;
+
+	/// \brief Fails if a stream is too short to contain a given number of elements.
+	/// \param r The stream the elements are going to be read from.
+	/// \param count The number of elements about to be read.
+	/// \param size The number of bytes every element takes up at least.
+	/// \param what The type of resource being read.
+	/// \throws ParserError if there are not enough bytes left in the stream.
+	void ensure_available(Read* r, std::uint64_t count, std::uint64_t size, char const* what);
+} // namespace zenkit
+
 #ifndef _MSC_VER
 	#define ZKLOGT(...) zenkit::Logger::log(zenkit::LogLevel::TRACE, __VA_ARGS__)
 	#define ZKLOGD(...) zenkit::Logger::log(zenkit::LogLevel::DEBUG, __VA_ARGS__)
diff --git a/src/Misc.cc b/src/Misc.cc
index 2f579e6..be16994 100644
--- a/src/Misc.cc
+++ b/src/Misc.cc
@@ -4,6 +4,9 @@
 
 #include "Internal.hh"
 
+#include "zenkit/Error.hh"
+#include "zenkit/Stream.hh"
+
 #include <algorithm>
 #include <cctype>
 
@@ -19,4 +22,16 @@ namespace zenkit {
 			return std::tolower(c1) < std::tolower(c2);
 		});
 	}
+
+	void ensure_available(Read* r, std::uint64_t count, std::uint64_t size, char const* what) {
+		auto mark = r->tell();
+		r->seek(0, Whence::END);
+		auto end = r->tell();
+		r->seek(static_cast<ssize_t>(mark), Whence::BEG);
+
+		auto available = end > mark ? end - mark : 0;
+		if (count > available / size) {
+			throw ParserError {what, "unexpected end of file: expected " + std::to_string(count) + " more elements"};
+		}
+	}
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 2f679a5..d99a8ab 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -20,6 +20,7 @@ namespace zenkit {
 			read->seek(hash_table_offset, Whence::BEG);
 
 			auto hash_table_size = read->read_uint();
+			ensure_available(read, hash_table_size, 8, "ReadArchive.Binsafe");
 			_m_hash_table_entries.resize(hash_table_size);
 
 			for (std::uint32_t i = 0; i < hash_table_size; ++i) {
@@ -28,6 +29,10 @@ namespace zenkit {
 				auto hash_value = read->read_uint();
 				auto key = read->read_string(key_length);
 
+				if (insertion_index >= hash_table_size) {
+					throw ParserError {"ReadArchive.Binsafe", "invalid hash table index"};
+				}
+
 				_m_hash_table_entries[insertion_index] = hash_table_entry {key, hash_value};
 			}
 
@@ -103,6 +108,10 @@ namespace zenkit {
 		}
 
 		auto hash = read->read_uint();
+		if (hash >= _m_hash_table_entries.size()) {
+			throw ParserError {"ReadArchive.Binsafe", "invalid entry key"};
+		}
+
 		return _m_hash_table_entries[hash].key;
 	}
 
-- 
2.43.0


From 53cc84577e9cf47211816a8df6b6e56d36adfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 120/160] fix: report numbers out of range in archives as
 parser errors

---
 src/Archive.cc               |  2 +-
 src/archive/ArchiveAscii.cc  | 24 ++++++++++++++----------
 src/archive/ArchiveBinary.cc |  2 +-
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Archive.cc b/src/Archive.cc
index 6c08960..6c260d6 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -226,7 +226,7 @@ namespace zenkit {
 			if (optional != "END") {
 				throw ParserError {"ReadArchive", "first END missing"};
 			}
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive", e, "reading int"};
 		}
 	}
diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 0a77d2c..25ca242 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -23,7 +23,7 @@ namespace zenkit {
 
 			try {
 				_m_objects = std::stoi(objects.substr(objects.find(' ') + 1));
-			} catch (std::invalid_argument const& e) {
+			} catch (std::logic_error const& e) {
 				throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 			}
 		}
@@ -107,23 +107,27 @@ namespace zenkit {
 	std::int32_t ReadArchiveAscii::read_int() {
 		try {
 			return std::stoi(read_entry("int"));
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
 
 	float ReadArchiveAscii::read_float() {
-		try {
-			return std::stof(read_entry("float"));
-		} catch (std::invalid_argument const& e) {
-			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
+		auto entry = read_entry("float");
+
+		char* end = nullptr;
+		auto value = std::strtof(entry.c_str(), &end);
+		if (end == entry.c_str()) {
+			throw ParserError {"ReadArchive.Ascii", "reading float"};
 		}
+
+		return value;
 	}
 
 	std::uint8_t ReadArchiveAscii::read_byte() {
 		try {
 			return std::stoul(read_entry("int")) & 0xFF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -131,7 +135,7 @@ namespace zenkit {
 	std::uint16_t ReadArchiveAscii::read_word() {
 		try {
 			return std::stoul(read_entry("int")) & 0xFF'FF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -139,7 +143,7 @@ namespace zenkit {
 	std::uint32_t ReadArchiveAscii::read_enum() {
 		try {
 			return std::stoul(read_entry("enum")) & 0xFFFF'FFFF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -147,7 +151,7 @@ namespace zenkit {
 	bool ReadArchiveAscii::read_bool() {
 		try {
 			return std::stoul(read_entry("bool")) != 0;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 4bdc689..5635c6f 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -17,7 +17,7 @@ namespace zenkit {
 
 			try {
 				_m_objects = std::stoi(objects.substr(objects.find(' ') + 1));
-			} catch (std::invalid_argument const& e) {
+			} catch (std::logic_error const& e) {
 				throw ParserError {"ReadArchiveBinary", e, "reading int"};
 			}
 		}
-- 
2.43.0


From 7e68a794267d8585f10ffb360a27576039a6c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 121/160] fix: refuse binary archives with invalid object sizes

---
 src/archive/ArchiveBinary.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 5635c6f..19f9054 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -43,11 +43,16 @@ namespace zenkit {
 		obj.index = read->read_uint();
 		obj.object_name = read->read_line(false);
 		obj.class_name = read->read_line(false);
+
+		if (_m_object_end.top() < read->tell()) {
+			throw ParserError {"ReadArchiveBinary", "invalid object size"};
+		}
+
 		return true;
 	}
 
 	bool ReadArchiveBinary::read_object_end() {
-		if (read->tell() == _m_object_end.top()) {
+		if (!_m_object_end.empty() && read->tell() == _m_object_end.top()) {
 			_m_object_end.pop();
 			return true;
 		}
@@ -122,6 +127,10 @@ namespace zenkit {
 
 	void ReadArchiveBinary::skip_object(bool skip_current) {
 		if (skip_current) {
+			if (_m_object_end.empty()) {
+				throw ParserError {"ReadArchiveBinary", "not inside of an object"};
+			}
+
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-- 
2.43.0


From 2769edfe2db5faa764bd05fc2867e8d900effb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 122/160] fix: refuse objects which list more parts than there
 is data

---
 src/vobs/Camera.cc        | 4 ++++
 src/vobs/Misc.cc          | 9 +++++++--
 src/vobs/MovableObject.cc | 3 +++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 802e642..3a211bf 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -3,6 +3,8 @@
 #include "zenkit/vobs/Camera.hh"
 #include "zenkit/Archive.hh"
 
+#include "../Internal.hh"
+
 namespace zenkit {
 	std::unique_ptr<VCameraTrajectoryFrame> VCameraTrajectoryFrame::parse(ReadArchive& r, GameVersion version) {
 		auto obj = std::make_unique<VCameraTrajectoryFrame>();
@@ -76,6 +78,8 @@ namespace zenkit {
 		this->auto_untrigger_last_delay = r.read_float(); // autoCamUntriggerOnLastKeyDelay
 		this->position_count = r.read_int();              // numPos
 		this->target_count = r.read_int();                // numTargets
+		ensure_available(r.get_stream(), this->position_count, 1, "VCutsceneCamera");
+		ensure_available(r.get_stream(), this->target_count, 1, "VCutsceneCamera");
 
 		for (auto i = 0; i < this->position_count; ++i) {
 			auto obj = r.read_object<VCameraTrajectoryFrame>(version);
diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index ae2c594..a11e204 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -282,6 +282,7 @@ namespace zenkit {
 		this->model_fatness = r.read_float(); // modelFatness
 
 		auto overlay_count = r.read_int(); // numOverlays
+		ensure_available(r.get_stream(), overlay_count, 1, "VNpc");
 		for (auto i = 0; i < overlay_count; ++i) {
 			this->overlays.push_back(r.read_string()); // overlay
 		}
@@ -295,6 +296,7 @@ namespace zenkit {
 		this->lp = r.read_int();            // lp
 
 		auto talent_count = static_cast<std::size_t>(r.read_int()); // numTalents
+		ensure_available(r.get_stream(), talent_count, 1, "VNpc");
 		this->talents.resize(talent_count);
 
 		for (auto i = 0u; i < talent_count; ++i) {
@@ -340,6 +342,7 @@ namespace zenkit {
 		[[maybe_unused]] auto spells = r.read_raw(4); // spells
 
 		auto news_count = r.read_int(); // NumOfEntries
+		ensure_available(r.get_stream(), news_count, 1, "VNpc");
 		for (auto i = 0; i < news_count; ++i) {
 			auto n = std::make_unique<News>();
 			n->told = r.read_bool();                                // told
@@ -377,17 +380,19 @@ namespace zenkit {
 		}
 
 		auto item_count = static_cast<size_t>(r.read_int()); // itemCount
+		ensure_available(r.get_stream(), item_count, 1, "VNpc");
 		this->items.resize(item_count);
 
 		for (auto i = 0u; i < item_count; ++i) {
 			this->items[i] = r.read_object<VItem>(version); // item0
 
-			if ((this->items[i]->s_flags & 0x200) != 0) {
+			if (this->items[i] != nullptr && (this->items[i]->s_flags & 0x200) != 0) {
 				(void) r.read_int(); // shortKey<n> // TODO
 			}
 		}
 
 		auto inv_slot_count = static_cast<uint32_t>(r.read_int()); // numInvSlots
+		ensure_available(r.get_stream(), inv_slot_count, 1, "VNpc");
 		this->slots.resize(inv_slot_count);
 		for (auto i = 0u; i < inv_slot_count; ++i) {
 			this->slots[i] = std::make_unique<Slot>();
@@ -544,7 +549,7 @@ namespace zenkit {
 			auto& item = this->items[i];
 			w.write_object("item" + std::to_string(i), item, version);
 
-			if ((item->s_flags & 0x200) != 0) {
+			if (item != nullptr && (item->s_flags & 0x200) != 0) {
 				w.write_int("shortKey" + std::to_string(i), 0); // TODO
 			}
 		}
diff --git a/src/vobs/MovableObject.cc b/src/vobs/MovableObject.cc
index 5bb5058..92940dd 100644
--- a/src/vobs/MovableObject.cc
+++ b/src/vobs/MovableObject.cc
@@ -3,6 +3,8 @@
 #include "zenkit/vobs/MovableObject.hh"
 #include "zenkit/Archive.hh"
 
+#include "../Internal.hh"
+
 namespace zenkit {
 	void VMovableObject::parse(VMovableObject& obj, ReadArchive& r, GameVersion version) {
 		obj.load(r, version);
@@ -84,6 +86,7 @@ namespace zenkit {
 		if (r.is_save_game()) {
 			// In save-games, containers contain extra variables
 			auto item_count = static_cast<size_t>(r.read_int()); // NumOfEntries
+			ensure_available(r.get_stream(), item_count, 1, "VContainer");
 			this->s_items.resize(item_count);
 
 			for (auto i = 0u; i < item_count; ++i) {
-- 
2.43.0


From 09acd6e34599c618d14eb32847ca3c0adfce04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 123/160] fix: ignore moving AI targets which are not virtual
 objects

---
 src/vobs/VirtualObject.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 556c598..643381d 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -402,6 +402,10 @@ namespace zenkit {
 	void AiMove::load(ReadArchive& r, GameVersion version) {
 		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
 		auto obj = r.read_object(version);
+		if (obj != nullptr && !is_vobject(obj->get_object_type())) {
+			obj = nullptr;
+		}
+
 		vob = std::shared_ptr<VirtualObject>(obj, reinterpret_cast<VirtualObject*>(obj.get())); // vob
 		owner = r.read_object<VNpc>(version);                                                   // owner
 	}
-- 
2.43.0


From 9f6fbadaeb467f34d069bf4e71efb4b914af2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 124/160] fix: refuse cutscene libraries with missing or cyclic
 blocks

---
 src/CutsceneLibrary.cc | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 1e3043d..32c493b 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -7,6 +7,8 @@
 
 #include "zenkit/vobs/Misc.hh"
 
+#include "Internal.hh"
+
 #include <algorithm>
 
 namespace zenkit {
@@ -53,7 +55,8 @@ namespace zenkit {
 			}
 		}
 
-		return std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block)->message;
+		auto const& atomic = std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block);
+		return atomic == nullptr ? nullptr : atomic->message;
 	}
 
 	void CutsceneBlock::set_message(std::shared_ptr<ConversationMessageEvent> msg) {
@@ -65,7 +68,12 @@ namespace zenkit {
 			}
 		}
 
-		std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block)->message = std::move(msg);
+		auto const& atomic = std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block);
+		if (atomic == nullptr) {
+			return;
+		}
+
+		atomic->message = std::move(msg);
 	}
 
 	void CutsceneBlock::load(ReadArchive& r, GameVersion version) {
@@ -80,10 +88,25 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
+		if (blk == nullptr) {
+			throw ParserError {"CutsceneLibrary", "missing block for " + this->name};
+		}
+
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
-			this->block = std::static_pointer_cast<CutsceneBlock>(blk);
+			auto child = std::static_pointer_cast<CutsceneBlock>(blk);
+
+			for (auto const* cur = child.get(); cur != nullptr;) {
+				if (cur == this) {
+					throw ParserError {"CutsceneLibrary", "block contains itself: " + this->name};
+				}
+
+				auto const* next = std::get_if<std::shared_ptr<CutsceneBlock>>(&cur->block);
+				cur = next == nullptr ? nullptr : next->get();
+			}
+
+			this->block = std::move(child);
 		} else {
 			throw ParserError {"CutsceneLibrary",
 			                   "Unexpected block type: " + std::to_string(static_cast<int>(blk->get_object_type())) +
@@ -118,10 +141,16 @@ namespace zenkit {
 
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
 		auto item_count = r.read_int(); // NumOfItems
+		ensure_available(r.get_stream(), item_count, 1, "CutsceneLibrary");
 		this->blocks.reserve(static_cast<std::uint64_t>(item_count));
 
 		for (auto i = 0; i < item_count; ++i) {
-			this->blocks.push_back(r.read_object<CutsceneBlock>(version));
+			auto block = r.read_object<CutsceneBlock>(version);
+			if (block == nullptr) {
+				throw ParserError {"CutsceneLibrary", "missing block"};
+			}
+
+			this->blocks.push_back(std::move(block));
 		}
 
 		// Prepare blocks for binary search in block_by_name
-- 
2.43.0


From e2cdb6d5d3e5280c467ee424c8673b0d82ae3e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 125/160] fix: refuse save-games which list more entries than
 there is data

---
 src/SaveGame.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 9498edc..0d74a2f 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -67,6 +67,7 @@ namespace zenkit {
 
 	void CutsceneManager::load(ReadArchive& r, GameVersion version) {
 		auto pool_count = r.read_int(); // poolCount
+		ensure_available(r.get_stream(), pool_count, 1, "CutsceneManager");
 		for (auto i = 0; i < pool_count; ++i) {
 			this->pool_items.push_back(r.read_object<CutscenePoolItem>(version));
 		}
@@ -86,6 +87,7 @@ namespace zenkit {
 
 		// oCInfoManager {
 		auto entry_count = r.read_int(); // NumOfEntries
+		ensure_available(r.get_stream(), entry_count, 1, "SaveState");
 		this->infos.resize(entry_count);
 		for (auto i = 0; i < entry_count; ++i) {
 			// oCInfo {
@@ -97,6 +99,7 @@ namespace zenkit {
 
 		// oCMissionManager {
 		auto mission_count = r.read_int(); // NumOfEntries
+		ensure_available(r.get_stream(), mission_count, 1, "SaveState");
 		for (auto i = 0; i < mission_count; ++i) {
 			// oCMission {
 			auto& mission = this->missions.emplace_back();
@@ -105,6 +108,7 @@ namespace zenkit {
 			mission.available = r.read_bool(); // Av
 
 			auto unknown_count = r.read_int(); // NumInList
+			ensure_available(r.get_stream(), unknown_count, 1, "SaveState");
 			for (auto j = 0; j < unknown_count; ++j) {
 				(void) r.read_int();   // VobIDL
 				(void) r.read_int();   // StatusL
@@ -118,6 +122,7 @@ namespace zenkit {
 
 		// oCLogManager {
 		auto topic_count = r.read_int(); // LOGMANAGERTOPICCOUNT
+		ensure_available(r.get_stream(), topic_count, 1, "SaveState");
 		this->log.resize(topic_count);
 
 		for (auto i = 0; i < topic_count; ++i) {
@@ -126,7 +131,10 @@ namespace zenkit {
 			topic.description = r.read_string();                          // TOPICDESCRIPTION
 			topic.section = static_cast<SaveTopicSection>(r.read_enum()); // TOPICSECTION
 			topic.status = static_cast<SaveTopicStatus>(r.read_enum());   // TOPICSTATUS
-			topic.entries.resize(r.read_int());                           // LOGTOPICENTRYCOUNT
+
+			auto topic_entry_count = r.read_int(); // LOGTOPICENTRYCOUNT
+			ensure_available(r.get_stream(), topic_entry_count, 1, "SaveState");
+			topic.entries.resize(topic_entry_count);
 
 			// NOTE(lmichaelis): Always the same as `LOGTOPICENTRYCOUNT`.
 			(void) r.read_int(); // LOGMANAGERENTRYCOUNT
@@ -142,6 +150,7 @@ namespace zenkit {
 
 		// zCParser {
 		auto symbol_count = r.read_int(); // numSymbols
+		ensure_available(r.get_stream(), symbol_count, 1, "SaveState");
 		this->symbols.resize(symbol_count);
 
 		for (SaveSymbolState& sym : this->symbols) {
@@ -152,6 +161,7 @@ namespace zenkit {
 				sym.values.push_back(r.read_int()); // symValue0
 			} else {
 				auto value_count = r.read_int(); // symName0cnt
+				ensure_available(r.get_stream(), value_count, 1, "SaveState");
 				for (auto j = 0; j < value_count; ++j) {
 					sym.values.push_back(r.read_int()); // symValue0_0
 				}
@@ -299,7 +309,12 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_info);
 			auto ar = ReadArchive::from(r.get());
-			this->metadata = *ar->read_object<SaveMetadata>(_m_version);
+			auto info = ar->read_object<SaveMetadata>(_m_version);
+			if (info == nullptr) {
+				throw ParserError {"SaveGame", "SAVEINFO.SAV does not contain any save-game information"};
+			}
+
+			this->metadata = *info;
 		}
 
 		// Load THUMB.SAV
-- 
2.43.0


From fbe8b7c467cf24d41e7253f5eed3c46dd5b46559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 126/160] fix: refuse worlds which list more objects than there
 is data

---
 src/World.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/World.cc b/src/World.cc
index de4fa8d..7f19a74 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -96,6 +96,10 @@ namespace zenkit {
 				auto mesh_offset = raw->tell();
 
 				do {
+					if (raw->eof()) {
+						throw ParserError {"World", "unexpected end of file while looking for the BSP tree"};
+					}
+
 					chunk_type = raw->read_ushort();
 					raw->seek(raw->read_uint(), Whence::CUR);
 				} while (chunk_type != 0xB060);
@@ -114,6 +118,7 @@ namespace zenkit {
 				raw->seek(static_cast<ssize_t>(end), Whence::BEG);
 			} else if (hdr.object_name == "VobTree") {
 				auto count = r.read_int(); // childs0
+				ensure_available(r.get_stream(), count, 1, "World");
 				for (auto i = 0; i < count; ++i) {
 					auto child = parse_vob_tree(r, version);
 
@@ -150,6 +155,7 @@ namespace zenkit {
 		if (r.is_save_game()) {
 			// Then, read all the NPCs
 			auto npc_count = r.read_int(); // npcCount
+			ensure_available(r.get_stream(), npc_count, 1, "World");
 			this->npcs.resize(npc_count);
 			for (auto i = 0; i < npc_count; ++i) {
 				this->npcs[i] = r.read_object<VNpc>(version);
@@ -157,6 +163,7 @@ namespace zenkit {
 
 			// After that, read all NPC spawn locations
 			auto npc_spawn_count = r.read_int(); // NoOfEntries
+			ensure_available(r.get_stream(), npc_spawn_count, 1, "World");
 			this->npc_spawns.resize(npc_spawn_count);
 
 			for (auto& spawn : this->npc_spawns) {
@@ -255,6 +262,7 @@ namespace zenkit {
 		this->last_process_hour = r.read_int(); // lastProcessHour
 
 		auto play_list_count = r.read_int(); // playListCount
+		ensure_available(r.get_stream(), play_list_count, 1, "CutscenePlayer");
 		for (auto i = 0; i < play_list_count; ++i) {
 			playlists.push_back(r.read_object<CutsceneContext>(version));
 		}
-- 
2.43.0


From 26f997564fd5b69e11032259dd4e78c75f34d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 127/160] fix: refuse way nets with missing way points

---
 src/world/WayNet.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 6cbc8c5..e9c69d8 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -28,22 +28,33 @@ namespace zenkit {
 	void WayNet::load(ReadArchive& r, GameVersion version) {
 		[[maybe_unused]] auto ver = r.read_int(); // waynetVersion
 		auto count_points = r.read_int();         // numWaypoints
+		ensure_available(r.get_stream(), count_points, 1, "WayNet");
 		this->points.reserve(count_points);
 
 		std::unordered_set<WayPoint*> known {};
 		for (auto i = 0; i < count_points; ++i) {
-			this->points.push_back(r.read_object<WayPoint>(version));
+			auto point = r.read_object<WayPoint>(version);
+			if (point == nullptr) {
+				throw ParserError {"WayNet", "missing way point"};
+			}
+
+			this->points.push_back(std::move(point));
 			this->points.back()->free_point = true;
 			known.insert(this->points.back().get());
 		}
 
 		auto count_edges = r.read_int(); // numWays
+		ensure_available(r.get_stream(), count_edges, 1, "WayNet");
 		this->edges.reserve(count_edges);
 
 		for (auto i = 0; i < count_edges; ++i) {
 			auto wayl = r.read_object<WayPoint>(version);
 			auto wayr = r.read_object<WayPoint>(version);
 
+			if (wayl == nullptr || wayr == nullptr) {
+				throw ParserError {"WayNet", "missing way point"};
+			}
+
 			if (known.insert(wayl.get()).second) this->points.push_back(wayl);
 			if (known.insert(wayr.get()).second) this->points.push_back(wayr);
 
-- 
2.43.0


From 54263494be2eb2c6dd77255613d70a64f2ce46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 128/160] fix: leave out repeated objects in VOb trees

---
 src/Internal.hh      | 12 ++++++++++++
 src/World.cc         |  4 +++-
 src/world/VobTree.cc | 21 +++++++++++++++++++--
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/Internal.hh b/src/Internal.hh
index 19b375e..e4ec956 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -2,10 +2,17 @@
 // SPDX-License-Identifier: MIT
 #pragma once
 #include "zenkit/Logger.hh"
+#include "zenkit/Misc.hh"
+
 #include <cstdint>
+#include <memory>
+#include <unordered_set>
 
 namespace zenkit {
 	class Read;
+	class ReadArchive;
+	class Object;
+	class VirtualObject;
 
 	/// \brief Fails if a stream is too short to contain a given number of elements.
 	/// \param r The stream the elements are going to be read from.
@@ -14,6 +21,11 @@ namespace zenkit {
 	/// \param what The type of resource being read.
 	/// \throws ParserError if there are not enough bytes left in the stream.
 	void ensure_available(Read* r, std::uint64_t count, std::uint64_t size, char const* what);
+
+	/// \brief Parses a VOB tree, leaving out objects which are already part of it.
+	/// \param known The objects which are part of the tree already.
+	std::shared_ptr<VirtualObject>
+	parse_vob_tree(ReadArchive& in, GameVersion version, std::unordered_set<Object const*>& known);
 } // namespace zenkit
 
 #ifndef _MSC_VER
diff --git a/src/World.cc b/src/World.cc
index 7f19a74..cf9cc0a 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -119,8 +119,10 @@ namespace zenkit {
 			} else if (hdr.object_name == "VobTree") {
 				auto count = r.read_int(); // childs0
 				ensure_available(r.get_stream(), count, 1, "World");
+
+				std::unordered_set<Object const*> known {};
 				for (auto i = 0; i < count; ++i) {
-					auto child = parse_vob_tree(r, version);
+					auto child = parse_vob_tree(r, version, known);
 
 					// We failed to parse this root VObject.
 					if (child == nullptr) {
diff --git a/src/world/VobTree.cc b/src/world/VobTree.cc
index 37134c9..419ed22 100644
--- a/src/world/VobTree.cc
+++ b/src/world/VobTree.cc
@@ -4,17 +4,28 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/vobs/VirtualObject.hh"
 
+#include "../Internal.hh"
+
 namespace zenkit {
-	std::shared_ptr<VirtualObject> parse_vob_tree(ReadArchive& in, GameVersion version) {
+	std::shared_ptr<VirtualObject>
+	parse_vob_tree(ReadArchive& in, GameVersion version, std::unordered_set<Object const*>& known) {
 		auto obj = in.read_object(version);
 		if (obj != nullptr && !is_vobject(obj->get_object_type())) {
 			obj = nullptr;
 		}
 
+		// Every object can only be part of the tree once, otherwise the tree might contain itself.
+		if (obj != nullptr && !known.insert(obj.get()).second) {
+			ZKLOGE("VobTree", "Object is already part of the tree");
+			obj = nullptr;
+		}
+
 		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
 		std::shared_ptr<VirtualObject> object {obj, reinterpret_cast<VirtualObject*>(obj.get())};
 
 		auto child_count = static_cast<size_t>(in.read_int());
+		ensure_available(in.get_stream(), child_count, 1, "VobTree");
+
 		if (object == nullptr) {
 			std::function<void(size_t)> skip;
 			skip = [&skip, &in](size_t count) {
@@ -22,6 +33,7 @@ namespace zenkit {
 					in.skip_object(false);
 
 					auto num_children = static_cast<size_t>(in.read_int());
+					ensure_available(in.get_stream(), num_children, 1, "VobTree");
 					skip(num_children);
 				}
 			};
@@ -33,7 +45,7 @@ namespace zenkit {
 		object->children.reserve(child_count);
 
 		for (auto i = 0u; i < child_count; ++i) {
-			auto child = parse_vob_tree(in, version);
+			auto child = parse_vob_tree(in, version, known);
 			if (child == nullptr) continue;
 
 			object->children.push_back(std::move(child));
@@ -42,6 +54,11 @@ namespace zenkit {
 		return object;
 	}
 
+	std::shared_ptr<VirtualObject> parse_vob_tree(ReadArchive& in, GameVersion version) {
+		std::unordered_set<Object const*> known {};
+		return parse_vob_tree(in, version, known);
+	}
+
 	static void
 	save_vob_tree(WriteArchive& w, GameVersion version, std::shared_ptr<VirtualObject> const& obj, uint32_t& n) {
 		w.write_object(obj, version);
-- 
2.43.0


From 436f921fa796b401ef8505c6bd4ee5f755835c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:59 +0000
Subject: [PATCH 129/160] fix: refuse textures with less data than their size
 requires

---
 src/Texture.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index e38c580..2172486 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -3,6 +3,8 @@
 #include "zenkit/Texture.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include "squish.h"
 
 #include <cstring>
@@ -297,6 +299,11 @@ namespace zenkit {
 		this->_m_reference_height = r->read_uint();
 		this->_m_average_color = r->read_uint();
 
+		auto pixels = std::uint64_t {std::max(1u, this->_m_width)} * std::max(1u, this->_m_height);
+		if (pixels > 0x8000000 || this->_m_mipmap_count > 32) {
+			throw ParserError {"texture", "invalid size"};
+		}
+
 		if (this->_m_format == TextureFormat::P8) {
 			for (auto& i : this->_m_palette) {
 				i.b = r->read_ubyte();
@@ -313,6 +320,8 @@ namespace zenkit {
 			auto size =
 			    _ztex_mipmap_size(this->_m_format, this->_m_width, this->_m_height, static_cast<uint32_t>(level));
 
+			ensure_available(r, size, 1, "texture");
+
 			std::vector<std::uint8_t> mipmap;
 			mipmap.resize(size);
 			r->read(mipmap.data(), size);
-- 
2.43.0


From 69a223244dc772c187e55915e8fbba4e13afb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:59 +0000
Subject: [PATCH 130/160] fix: refuse meshes which list more parts than there
 is data

---
 src/Boxes.cc |  7 ++++++-
 src/Mesh.cc  | 27 ++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 6d23ff4..e1695e0 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -3,6 +3,8 @@
 #include "zenkit/Boxes.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include <limits>
 
 namespace zenkit {
@@ -23,7 +25,10 @@ namespace zenkit {
 		axes[2] = r->read_vec3();
 		half_width = r->read_vec3();
 
-		children.resize(r->read_ushort());
+		auto child_count = r->read_ushort();
+		ensure_available(r, child_count, 62, "OrientedBoundingBox");
+
+		children.resize(child_count);
 		for (auto& child : children) {
 			child.load(r);
 		}
diff --git a/src/Mesh.cc b/src/Mesh.cc
index c162883..e51e363 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include <algorithm>
 #include <unordered_set>
 
@@ -30,6 +32,13 @@ namespace zenkit {
 		    sector_index == b.sector_index && is_lod == b.is_lod && normal_axis == b.normal_axis;
 	}
 
+	/// \brief Reads the number of elements of at least the given size which follow in the stream.
+	static std::uint32_t read_count(Read* r, std::uint64_t size) {
+		auto count = r->read_uint();
+		ensure_available(r, count, size, "Mesh");
+		return count;
+	}
+
 	void Mesh::load(Read* r, std::vector<std::uint32_t> const& leaf_polygons, bool force_wide_indices) {
 		this->load(r, force_wide_indices);
 		this->triangulate(leaf_polygons);
@@ -55,7 +64,7 @@ namespace zenkit {
 			    case MeshChunkType::MATERIAL: {
 				    auto matreader = ReadArchive::from(c);
 
-				    this->materials.resize(c->read_uint());
+				    this->materials.resize(read_count(c, 4));
 				    for (auto& material : this->materials) {
 					    material.load(*matreader);
 				    }
@@ -63,7 +72,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case MeshChunkType::VERTICES:
-				    this->vertices.resize(c->read_uint());
+				    this->vertices.resize(read_count(c, 12));
 
 				    for (auto& vertex : this->vertices) {
 					    vertex = c->read_vec3();
@@ -71,7 +80,7 @@ namespace zenkit {
 
 				    break;
 			    case MeshChunkType::FEATURES:
-				    this->features.resize(c->read_uint());
+				    this->features.resize(read_count(c, 24));
 
 				    for (auto& feature : this->features) {
 					    feature.texture = c->read_vec2();
@@ -81,7 +90,7 @@ namespace zenkit {
 
 				    break;
 			    case MeshChunkType::POLYGONS: {
-				    auto poly_count = c->read_uint();
+				    auto poly_count = read_count(c, 24);
 				    this->geometry.resize(poly_count);
 
 				    // At least 3 indices per polygon (triangulated).
@@ -138,7 +147,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case MeshChunkType::LIGHTMAPS_SHARED: {
-				    auto texture_count = c->read_uint();
+				    auto texture_count = read_count(c, 36);
 
 				    std::vector<std::shared_ptr<Texture>> lightmap_textures {};
 				    lightmap_textures.resize(texture_count);
@@ -148,13 +157,17 @@ namespace zenkit {
 					    lightmap_textures[i]->load(c);
 				    }
 
-				    auto lightmap_count = c->read_uint();
+				    auto lightmap_count = read_count(c, 40);
 				    for (std::uint32_t i = 0; i < lightmap_count; ++i) {
 					    auto origin = c->read_vec3();
 					    auto normal_a = c->read_vec3();
 					    auto normal_b = c->read_vec3();
 					    std::uint32_t texture_index = c->read_uint();
 
+					    if (texture_index >= texture_count) {
+						    throw ParserError {"Mesh", "invalid lightmap texture index"};
+					    }
+
 					    this->lightmaps.emplace_back(
 					        LightMap {lightmap_textures[texture_index], {normal_a, normal_b}, origin});
 				    }
@@ -162,7 +175,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case MeshChunkType::LIGHTMAPS: {
-				    auto lightmap_count = c->read_uint();
+				    auto lightmap_count = read_count(c, 40);
 
 				    for (std::uint32_t i = 0; i < lightmap_count; ++i) {
 					    auto origin = c->read_vec3();
-- 
2.43.0


From 6c4887329e4961f582dce7d7ed007dc96c6eff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:59 +0000
Subject: [PATCH 131/160] fix: refuse BSP trees which refer to missing nodes or
 polygons

---
 src/world/BspTree.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index 156982c..cb9705a 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -1,6 +1,7 @@
 // Copyright © 2021-2024 GothicKit Contributors.
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/BspTree.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "../Internal.hh"
@@ -50,7 +51,7 @@ namespace zenkit {
 			}
 
 			if ((flags & 0x01) != 0) {
-				node.front_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].front_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
@@ -60,7 +61,7 @@ namespace zenkit {
 			}
 
 			if ((flags & 0x02) != 0) {
-				node.back_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].back_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
@@ -82,7 +83,11 @@ namespace zenkit {
 				this->mode = static_cast<BspTreeType>(c->read_uint());
 				break;
 			case BspChunkType::POLYGONS:
-				this->polygon_indices.resize(c->read_uint());
+				{
+					auto count = c->read_uint();
+					ensure_available(c, count, 4, "BspTree");
+					this->polygon_indices.resize(count);
+				}
 
 				for (uint32_t& index : this->polygon_indices) {
 					index = c->read_uint();
@@ -92,6 +97,13 @@ namespace zenkit {
 				uint32_t node_count = c->read_uint();
 				uint32_t leaf_count = c->read_uint();
 
+				ensure_available(c, node_count, 32, "BspTree");
+				ensure_available(c, leaf_count, 32, "BspTree");
+
+				this->nodes.clear();
+				this->leaf_node_indices.clear();
+				this->leaf_polygons.clear();
+
 				this->nodes.reserve(node_count);
 				this->leaf_node_indices.reserve(leaf_count);
 
@@ -102,6 +114,10 @@ namespace zenkit {
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
 
+					if (std::uint64_t {node.polygon_index} + node.polygon_count > this->polygon_indices.size()) {
+						throw ParserError {"BspTree", "polygon index out of range"};
+					}
+
 					for (uint32_t i = 0; i < node.polygon_count; ++i) {
 						this->leaf_polygons.push_back(this->polygon_indices[node.polygon_index + i]);
 					}
@@ -118,6 +134,7 @@ namespace zenkit {
 			}
 			case BspChunkType::OUTDOORS: {
 				auto sector_count = c->read_uint();
+				ensure_available(c, sector_count, 9, "BspTree");
 				this->sectors.reserve(sector_count);
 
 				for (std::uint32_t i = 0; i < sector_count; ++i) {
@@ -127,6 +144,7 @@ namespace zenkit {
 
 					auto node_count = c->read_uint();
 					auto polygon_count = c->read_uint();
+					ensure_available(c, std::uint64_t {node_count} + polygon_count, 4, "BspTree");
 
 					sector.node_indices.resize(node_count);
 					sector.portal_polygon_indices.resize(polygon_count);
@@ -141,6 +159,7 @@ namespace zenkit {
 				}
 
 				auto portal_count = c->read_uint();
+				ensure_available(c, portal_count, 4, "BspTree");
 				this->portal_polygon_indices.resize(portal_count);
 
 				for (std::uint32_t i = 0; i < portal_count; ++i) {
-- 
2.43.0


From bd9abc639aab4ba2e551b25317fdafc7fb6e0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 132/160] fix: refuse multi-resolution meshes which list more
 elements than there is data

---
 src/MultiResolutionMesh.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index aacf3f7..18d6058 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	[[maybe_unused]] static constexpr auto VERSION_G1 = 0x305;
 	static constexpr auto VERSION_G2 = 0x905;
@@ -77,15 +79,17 @@ namespace zenkit {
 		auto end = r->tell();
 
 		// read positions
-		this->positions.resize(vertices_size);
 		r->seek(static_cast<ssize_t>(vertices_offset), Whence::BEG);
+		ensure_available(r, vertices_size, 12, "MultiResolutionMesh");
+		this->positions.resize(vertices_size);
 		for (auto& pos : this->positions) {
 			pos = r->read_vec3();
 		}
 
 		// read normals
-		this->normals.resize(normals_size);
 		r->seek(static_cast<ssize_t>(normals_offset), Whence::BEG);
+		ensure_available(r, normals_size, 12, "MultiResolutionMesh");
+		this->normals.resize(normals_size);
 		for (auto& normal : this->normals) {
 			normal = r->read_vec3();
 		}
@@ -191,6 +195,7 @@ namespace zenkit {
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
 		// triangles
 		r->seek(static_cast<ssize_t>(map.triangles.offset), Whence::BEG);
+		ensure_available(r, map.triangles.size, 6, "SubMesh");
 		this->triangles.resize(map.triangles.size);
 		for (auto i = 0u; i < map.triangles.size; ++i) {
 			this->triangles[i] = {{r->read_ushort(), r->read_ushort(), r->read_ushort()}};
@@ -198,6 +203,7 @@ namespace zenkit {
 
 		// wedges
 		r->seek(static_cast<ssize_t>(map.wedges.offset), Whence::BEG);
+		ensure_available(r, map.wedges.size, 24, "SubMesh");
 		this->wedges.resize(map.wedges.size);
 
 		for (auto i = 0u; i < map.wedges.size; ++i) {
@@ -209,6 +215,7 @@ namespace zenkit {
 
 		// colors
 		r->seek(static_cast<ssize_t>(map.colors.offset), Whence::BEG);
+		ensure_available(r, map.colors.size, 4, "SubMesh");
 		this->colors.resize(map.colors.size);
 
 		for (auto i = 0u; i < map.colors.size; ++i) {
@@ -217,6 +224,7 @@ namespace zenkit {
 
 		// triangle_plane_indices
 		r->seek(static_cast<ssize_t>(map.triangle_plane_indices.offset), Whence::BEG);
+		ensure_available(r, map.triangle_plane_indices.size, 2, "SubMesh");
 		this->triangle_plane_indices.resize(map.triangle_plane_indices.size);
 
 		for (auto i = 0u; i < map.triangle_plane_indices.size; ++i) {
@@ -225,6 +233,7 @@ namespace zenkit {
 
 		// triangle_planes
 		r->seek(static_cast<ssize_t>(map.triangle_planes.offset), Whence::BEG);
+		ensure_available(r, map.triangle_planes.size, 16, "SubMesh");
 		this->triangle_planes.resize(map.triangle_planes.size);
 
 		for (auto i = 0u; i < map.triangle_planes.size; ++i) {
@@ -233,6 +242,7 @@ namespace zenkit {
 
 		// triangle_edges
 		r->seek(static_cast<ssize_t>(map.triangle_edges.offset), Whence::BEG);
+		ensure_available(r, map.triangle_edges.size, 6, "SubMesh");
 		this->triangle_edges.resize(map.triangle_edges.size);
 
 		for (auto i = 0u; i < map.triangle_edges.size; ++i) {
@@ -241,6 +251,7 @@ namespace zenkit {
 
 		// edges
 		r->seek(static_cast<ssize_t>(map.edges.offset), Whence::BEG);
+		ensure_available(r, map.edges.size, 4, "SubMesh");
 		this->edges.resize(map.edges.size);
 
 		for (auto i = 0u; i < map.edges.size; ++i) {
@@ -249,6 +260,7 @@ namespace zenkit {
 
 		// edge_scores
 		r->seek(static_cast<ssize_t>(map.edge_scores.offset), Whence::BEG);
+		ensure_available(r, map.edge_scores.size, 4, "SubMesh");
 		this->edge_scores.resize(map.edge_scores.size);
 
 		for (auto i = 0u; i < map.edge_scores.size; ++i) {
@@ -257,6 +269,7 @@ namespace zenkit {
 
 		// wedge_map
 		r->seek(static_cast<ssize_t>(map.wedge_map.offset), Whence::BEG);
+		ensure_available(r, map.wedge_map.size, 2, "SubMesh");
 		this->wedge_map.resize(map.wedge_map.size);
 
 		for (auto i = 0u; i < map.wedge_map.size; ++i) {
-- 
2.43.0


From 9d79574489bde593dbe625737106d1cf244da1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 133/160] fix: refuse soft-skin meshes which list more weights
 or normals than there is data

---
 src/SoftSkinMesh.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 80684ca..9e6b132 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -33,6 +33,7 @@ namespace zenkit {
 				this->weights.resize(this->mesh.positions.size());
 				for (uint32_t i = 0; i < this->mesh.positions.size(); ++i) {
 					auto count = c->read_uint();
+					ensure_available(c, count, 17, "SoftSkinMesh");
 					this->weights[i].resize(count);
 
 					for (std::uint32_t j = 0; j < count; ++j) {
@@ -49,7 +50,9 @@ namespace zenkit {
 				}
 
 				// wedge normals
-				this->wedge_normals.resize(c->read_uint());
+				auto wedge_normal_count = c->read_uint();
+				ensure_available(c, wedge_normal_count, 16, "SoftSkinMesh");
+				this->wedge_normals.resize(wedge_normal_count);
 				for (auto& normal : this->wedge_normals) {
 					normal.normal = c->read_vec3();
 					normal.index = c->read_uint();
-- 
2.43.0


From f279d46c36c2fa2d4db8b18922ed654e71c6a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 134/160] fix: refuse model meshes with more attachments than
 names

---
 src/ModelMesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 79bda92..0166750 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelMesh.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 namespace zenkit {
@@ -44,6 +45,10 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelMeshChunkType::PROTO:
+				    if (this->attachments.size() >= attachment_names.size()) {
+					    throw ParserError {"ModelMesh", "more attachments than names"};
+				    }
+
 				    this->attachments[attachment_names[this->attachments.size()]].load_from_section(c);
 				    break;
 			    case ModelMeshChunkType::SOFTSKINS: {
-- 
2.43.0


From 60de69e27ee8bed0a6007d0dbd6957bf0a8d5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 135/160] fix: refuse animations which list more events or
 samples than there is data

---
 src/ModelAnimation.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 2f66b64..57f3f41 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -3,6 +3,8 @@
 #include "zenkit/ModelAnimation.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include <math.h>
 
 namespace zenkit {
@@ -92,8 +94,11 @@ namespace zenkit {
 				this->bbox.load(c);
 				this->next = c->read_line(false);
 				break;
-			case AnimationChunkType::EVENTS:
-				this->events.resize(c->read_uint());
+			case AnimationChunkType::EVENTS: {
+				auto event_count = c->read_uint();
+				ensure_available(c, event_count, 33, "ModelAnimation");
+				this->events.resize(event_count);
+
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
@@ -111,21 +116,26 @@ namespace zenkit {
 				}
 
 				break;
-			case AnimationChunkType::SAMPLES:
+			}
+			case AnimationChunkType::SAMPLES: {
 				this->checksum = c->read_uint();
 
+				ensure_available(c, this->node_count, 4, "ModelAnimation");
 				this->node_indices.resize(this->node_count);
 				for (auto& i : this->node_indices) {
 					i = c->read_uint();
 				}
 
-				this->samples.resize(this->node_count * this->frame_count);
+				auto sample_count = static_cast<std::uint64_t>(this->node_count) * this->frame_count;
+				ensure_available(c, sample_count, 12, "ModelAnimation");
+				this->samples.resize(sample_count);
 				for (auto& i : this->samples) {
 					i.rotation = read_sample_quaternion(c);
 					i.position = read_sample_position(c, this->sample_position_scale, this->sample_position_min);
 				}
 
 				break;
+			}
 			default:
 				break;
 			}
-- 
2.43.0


From f337ff8aa6bc3ce455fb681cae019458d36008de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 136/160] fix: refuse morph meshes which list more vertices or
 samples than there is data

---
 src/MorphMesh.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index e0b9e62..a277e17 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -3,6 +3,8 @@
 #include "zenkit/MorphMesh.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	enum class MorphMeshChunkType : std::uint16_t {
 		SOURCES = 0xE010,
@@ -57,15 +59,18 @@ namespace zenkit {
 					auto vertex_count = c->read_uint();
 					anim.frame_count = c->read_uint();
 
+					ensure_available(c, vertex_count, 4, "MorphMesh");
 					anim.vertices.resize(vertex_count);
-					anim.samples.resize(anim.frame_count * vertex_count);
-
 					for (std::uint32_t j = 0; j < vertex_count; ++j) {
 						anim.vertices[j] = c->read_uint();
 					}
 
-					for (std::uint32_t j = 0; j < vertex_count * anim.frame_count; ++j) {
-						anim.samples[j] = c->read_vec3();
+					auto sample_count = static_cast<std::uint64_t>(vertex_count) * anim.frame_count;
+					ensure_available(c, sample_count, 12, "MorphMesh");
+					anim.samples.resize(sample_count);
+
+					for (auto& sample : anim.samples) {
+						sample = c->read_vec3();
 					}
 				}
 				break;
-- 
2.43.0


From bb07ba8d4316a2035300a7381563c7893a4adc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:01 +0000
Subject: [PATCH 137/160] fix: refuse fonts which list more glyphs than there
 is data

---
 src/Font.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 90a881f..bb74c1e 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	bool FontGlyph::operator==(FontGlyph const& g) const noexcept {
 		return this->width == g.width && this->uv[0] == g.uv[0] && this->uv[1] == g.uv[1];
@@ -20,7 +22,9 @@ namespace zenkit {
 		this->name = r->read_line(false);
 		this->height = r->read_uint();
 
-		this->glyphs.resize(r->read_uint());
+		auto glyph_count = r->read_uint();
+		ensure_available(r, glyph_count, 17, "Font");
+		this->glyphs.resize(glyph_count);
 		for (auto& glyph : glyphs) {
 			glyph.width = r->read_ubyte();
 		}
-- 
2.43.0


From 156ebaa31c9b98d14380118875322c5ddef5d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:38 +0000
Subject: [PATCH 138/160] fix: refuse compiled model scripts with events
 outside of animations

---
 src/ModelScript.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 14de47f..b58f81a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelScript.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "Internal.hh"
@@ -184,6 +185,14 @@ namespace zenkit {
 		    r,
 		    "ModelScript.Binary",
 		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+			    auto animation = [&script, &ani_index]() -> MdsAnimation& {
+				    if (ani_index >= script.animations.size()) {
+					    throw ParserError {"ModelScript.Binary", "event without an animation"};
+				    }
+
+				    return script.animations[ani_index];
+			    };
+
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
@@ -261,7 +270,7 @@ namespace zenkit {
 				    trem.field2 = c->read_int();
 				    trem.field3 = c->read_int();
 				    trem.field4 = c->read_int();
-				    script.animations[ani_index].tremors.push_back(trem);
+				    animation().tremors.push_back(trem);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX: {
@@ -270,7 +279,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx.push_back(std::move(effect));
+				    animation().sfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX_GROUND: {
@@ -279,7 +288,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx_ground.push_back(std::move(effect));
+				    animation().sfx_ground.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::MODEL_TAG: {
@@ -371,7 +380,7 @@ namespace zenkit {
 					    break;
 				    }
 
-				    script.animations[ani_index].events.push_back(std::move(event));
+				    animation().events.push_back(std::move(event));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX: {
@@ -381,14 +390,14 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.position = c->read_line(false);
 				    effect.attached = c->read_uint() != 0;
-				    script.animations[ani_index].pfx.push_back(std::move(effect));
+				    animation().pfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX_STOP: {
 				    MdsParticleEffectStop effect {};
 				    effect.frame = c->read_int();
 				    effect.index = c->read_int();
-				    script.animations[ani_index].pfx_stop.push_back(effect);
+				    animation().pfx_stop.push_back(effect);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_MM_ANI: {
@@ -398,7 +407,7 @@ namespace zenkit {
 				    anim.node = c->read_line(false);
 				    (void) c->read_float();
 				    (void) c->read_float();
-				    script.animations[ani_index].morph.push_back(std::move(anim));
+				    animation().morph.push_back(std::move(anim));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::ROOT:
-- 
2.43.0


From 3005be6e43ce293d5a770f7afac1310a27c301c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:38 +0000
Subject: [PATCH 139/160] fix: report bad numbers in model scripts as syntax
 errors

---
 src/ModelScriptDsl.cc | 24 +++++++++++++++++++++---
 src/ModelScriptDsl.hh |  2 ++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index dd2e7a5..d7774fa 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -7,6 +7,8 @@
 #include "zenkit/Misc.hh"
 #include "zenkit/Stream.hh"
 
+#include <stdexcept>
+
 #define WARN_SYNTAX(msg) ZKLOGW("ModelScript", "Syntax error (line %d, column %d): %s", _m_line, _m_column, msg)
 
 namespace zenkit {
@@ -230,9 +232,25 @@ namespace zenkit {
 		return *mb;
 	}
 
+	int MdsParser::token_as_int() const {
+		try {
+			return std::stoi(_m_stream.token_value());
+		} catch (std::logic_error const&) {
+			throw ScriptSyntaxError {_m_stream.format_location(), "invalid integer: " + _m_stream.token_value()};
+		}
+	}
+
+	float MdsParser::token_as_float() const {
+		try {
+			return std::stof(_m_stream.token_value());
+		} catch (std::logic_error const&) {
+			throw ScriptSyntaxError {_m_stream.format_location(), "invalid number: " + _m_stream.token_value()};
+		}
+	}
+
 	int MdsParser::expect_int() {
 		this->expect<MdsToken::INTEGER>();
-		return std::stoi(_m_stream.token_value());
+		return this->token_as_int();
 	}
 
 	AnimationFlags MdsParser::expect_flags() {
@@ -281,7 +299,7 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		return std::stoi(_m_stream.token_value());
+		return this->token_as_int();
 	}
 
 	std::optional<float> MdsParser::maybe_number() {
@@ -291,7 +309,7 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		return std::stof(_m_stream.token_value());
+		return this->token_as_float();
 	}
 
 	std::optional<std::string> MdsParser::maybe_string() {
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index e403c25..06cb5df 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -81,6 +81,8 @@ namespace zenkit {
 		[[nodiscard]] std::optional<std::string> maybe_keyword();
 		void expect_keyword(std::string_view value);
 		[[nodiscard]] float expect_number();
+		[[nodiscard]] int token_as_int() const;
+		[[nodiscard]] float token_as_float() const;
 		[[nodiscard]] int expect_int();
 		[[nodiscard]] AnimationFlags expect_flags();
 		[[nodiscard]] std::optional<AnimationFlags> maybe_flags();
-- 
2.43.0


From b09807de836cda3c4474bdc59cbb1438593040f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:17 +0000
Subject: [PATCH 140/160] fix: refuse compiled scripts which list more symbols
 or code than there is data

---
 src/DaedalusScript.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 58dfe0d..f32501d 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -90,6 +90,7 @@ namespace zenkit {
 	void DaedalusScript::load(Read* r) {
 		this->_m_version = r->read_ubyte();
 		auto symbol_count = r->read_uint();
+		ensure_available(r, symbol_count, 40, "DaedalusScript");
 
 		this->_m_symbols.resize(symbol_count);
 		this->_m_symbols_by_name.reserve(symbol_count + 1);
@@ -112,6 +113,7 @@ namespace zenkit {
 		}
 
 		std::uint32_t text_size = r->read_uint();
+		ensure_available(r, text_size, 1, "DaedalusScript");
 		std::vector code(text_size, std::byte {});
 		r->read(code.data(), text_size);
 
-- 
2.43.0


From ca957660501a70f3dc04a9b801860106dbeb3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:17 +0000
Subject: [PATCH 141/160] fix: end the parameters of a function with the symbol
 table

---
 src/DaedalusScript.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f32501d..221b998 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -195,8 +195,8 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) {
-		return std::span<DaedalusSymbol>(_m_symbols.begin() + parent->index() + 1,
-		                                 _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto end = std::min<size_t>(_m_symbols.size(), size_t {parent->index()} + parent->count() + 1);
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + parent->index() + 1, _m_symbols.begin() + end);
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_locals_for_function(DaedalusSymbol const* parent) {
@@ -214,8 +214,8 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-		return std::span<DaedalusSymbol const>(_m_symbols.begin() + parent->index() + 1,
-		                                       _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto end = std::min<size_t>(_m_symbols.size(), size_t {parent->index()} + parent->count() + 1);
+		return std::span<DaedalusSymbol const>(_m_symbols.begin() + parent->index() + 1, _m_symbols.begin() + end);
 	}
 
 	std::vector<DaedalusSymbol*> DaedalusScript::find_class_members(DaedalusSymbol const& cls) {
-- 
2.43.0


From 84808ec2adf835b1fab4b141de2af5bba940c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:17 +0000
Subject: [PATCH 142/160] fix: stop looking for the class of an instance when
 its parents form a loop

---
 include/zenkit/DaedalusVm.hh | 5 +++--
 src/DaedalusVm.cc            | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 994d7ac..46b04d9 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -319,8 +319,9 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
-				parent = find_symbol_by_index(parent->parent());
+			for (auto left = symbols().size(); parent != nullptr && parent->type() != DaedalusDataType::CLASS; --left) {
+				// The parents might form a loop.
+				parent = left == 0 ? nullptr : find_symbol_by_index(parent->parent());
 			}
 
 			if (parent == nullptr || parent->registered_to() != typeid(_instance_t)) {
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b2e498..3047a1d 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -107,8 +107,9 @@ namespace zenkit {
 		}
 
 		auto cls = sym;
-		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
-			cls = find_symbol_by_index(cls->parent());
+		for (auto left = symbols().size(); cls != nullptr && cls->type() != DaedalusDataType::CLASS; --left) {
+			// The parents might form a loop.
+			cls = left == 0 ? nullptr : find_symbol_by_index(cls->parent());
 		}
 		if (cls == nullptr) {
 			// We're probably trying to initialize $INSTANCE_HELP which is not permitted
-- 
2.43.0


From 1c8d8d125bfc8f3bdec7be6ebc44009cf8997959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 143/160] fix: do not execute instructions outside of the code

---
 src/DaedalusScript.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 221b998..77f51ce 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -122,6 +122,10 @@ namespace zenkit {
 
 	DaedalusInstruction DaedalusScript::instruction_at(std::uint32_t address) const {
 		_m_text->seek(address, Whence::BEG);
+		if (_m_text->tell() != address || _m_text->eof()) {
+			throw DaedalusScriptError {"no instruction at address " + std::to_string(address)};
+		}
+
 		return DaedalusInstruction::decode(_m_text.get());
 	}
 
-- 
2.43.0


From 0f08b010473f5b44e6cbf6f53b8bff65cbfa307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 144/160] fix: name unknown data types in messages

---
 src/DaedalusScript.cc | 8 +++++++-
 src/DaedalusVm.cc     | 4 ++--
 src/Internal.hh       | 4 ++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 77f51ce..0eb6534 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -6,8 +6,14 @@
 #include "Internal.hh"
 
 #include <algorithm>
+#include <iterator>
 
 namespace zenkit {
+	char const* data_type_name(DaedalusDataType type) noexcept {
+		auto index = static_cast<std::uint32_t>(type);
+		return index < std::size(DAEDALUS_DATA_TYPE_NAMES) ? DAEDALUS_DATA_TYPE_NAMES[index] : "unknown";
+	}
+
 	DaedalusSymbolNotFound::DaedalusSymbolNotFound(std::string&& sym_name)
 	    : DaedalusScriptError("symbol not found: " + sym_name), name(sym_name) {}
 
@@ -18,7 +24,7 @@ namespace zenkit {
 	                                                                         std::string&& provided)
 	    : DaedalusMemberRegistrationError(s,
 	                                      "wrong datatype: provided '" + provided + "' expected " +
-	                                          DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->type())]) {}
+	                                          data_type_name(s->type())) {}
 
 	DaedalusIllegalTypeAccess::DaedalusIllegalTypeAccess(DaedalusSymbol const* s, DaedalusDataType expected_dt)
 	    : DaedalusIllegalAccess("illegal access of type " + std::to_string(static_cast<int32_t>(expected_dt)) +
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 3047a1d..b18deb7 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -1072,7 +1072,7 @@ namespace zenkit {
 	    : DaedalusIllegalExternalDefinition(
 	          s,
 	          "external " + s->name() + " has illegal return type '" + provided + "', expected '" +
-	              DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->rtype())] + "'") {}
+	              data_type_name(s->rtype()) + "'") {}
 
 	DaedalusIllegalExternalParameter::DaedalusIllegalExternalParameter(DaedalusSymbol const* s,
 	                                                                   std::string&& provided,
@@ -1080,7 +1080,7 @@ namespace zenkit {
 	    : DaedalusIllegalExternalDefinition(s,
 	                                        "external " + s->name() + " has illegal parameter type '" + provided +
 	                                            "' (no. " + std::to_string(i) + "), expected '" +
-	                                            DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->type())] + "'") {
+	                                            data_type_name(s->type()) + "'") {
 	}
 
 	DaedalusVmExceptionStrategy
diff --git a/src/Internal.hh b/src/Internal.hh
index e4ec956..180a3d4 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -9,6 +9,7 @@
 #include <unordered_set>
 
 namespace zenkit {
+	enum class DaedalusDataType : std::uint32_t;
 	class Read;
 	class ReadArchive;
 	class Object;
@@ -22,6 +23,9 @@ namespace zenkit {
 	/// \throws ParserError if there are not enough bytes left in the stream.
 	void ensure_available(Read* r, std::uint64_t count, std::uint64_t size, char const* what);
 
+	/// \return The name of the given data type for use in messages.
+	char const* data_type_name(DaedalusDataType type) noexcept;
+
 	/// \brief Parses a VOB tree, leaving out objects which are already part of it.
 	/// \param known The objects which are part of the tree already.
 	std::shared_ptr<VirtualObject>
-- 
2.43.0


From b27e9b2ee82147b163f3b4e87ad8c21e51eb4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:37 +0000
Subject: [PATCH 145/160] fix: refuse textures of an unknown format

---
 src/Texture.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 2172486..b46b375 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -292,6 +292,10 @@ namespace zenkit {
 		}
 
 		this->_m_format = static_cast<TextureFormat>(r->read_uint());
+		if (static_cast<std::uint32_t>(this->_m_format) > static_cast<std::uint32_t>(TextureFormat::DXT5)) {
+			throw ParserError {"texture", "invalid format"};
+		}
+
 		this->_m_width = r->read_uint();
 		this->_m_height = r->read_uint();
 		this->_m_mipmap_count = std::max(1u, r->read_uint());
-- 
2.43.0


From d64e3ec71de69b25b138700306aea8f40eeddd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 146/160] fix: make the DDS channel masks of 24 and 32 bit
 textures match their byte order

---
 src/addon/texcvt.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/addon/texcvt.cc b/src/addon/texcvt.cc
index 8eab5d7..61648e2 100644
--- a/src/addon/texcvt.cc
+++ b/src/addon/texcvt.cc
@@ -97,20 +97,12 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwBBitMask = 0xFF000000;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
 			break;
 		case TextureFormat::R8G8B8A8:
-			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
-			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0xFF000000;
-			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwBBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
-			break;
-		case TextureFormat::A8B8G8R8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
 			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
@@ -118,27 +110,35 @@ namespace zenkit {
 			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
 			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
 			break;
+		case TextureFormat::A8B8G8R8:
+			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
+			header.ddpfPixelFormat.dwRGBBitCount = 32;
+			header.ddpfPixelFormat.dwRBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
+			break;
 		case TextureFormat::A8R8G8B8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwRBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
 			break;
 		case TextureFormat::B8G8R8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB;
 			header.ddpfPixelFormat.dwRGBBitCount = 24;
-			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
 			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
 			break;
 		case TextureFormat::R8G8B8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB;
 			header.ddpfPixelFormat.dwRGBBitCount = 24;
-			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
 			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
 			break;
 		case TextureFormat::A4R4G4B4:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
-- 
2.43.0


From 1c04f02e2a0b9718d41ab9f05a81c7e92c0a36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:13 +0000
Subject: [PATCH 147/160] fix: store the components of quaternions in the order
 their index counts them

---
 include/zenkit/Misc.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/Misc.hh b/include/zenkit/Misc.hh
index 59295a0..3996122 100644
--- a/include/zenkit/Misc.hh
+++ b/include/zenkit/Misc.hh
@@ -160,10 +160,10 @@ namespace zenkit {
 	};
 
 	struct Quat {
-		float w, x, y, z;
+		float x, y, z, w;
 
 		constexpr Quat() : Quat(0, 0, 0, 0) {}
-		constexpr Quat(float w, float x, float y, float z) : w(w), x(x), y(y), z(z) {}
+		constexpr Quat(float w, float x, float y, float z) : x(x), y(y), z(z), w(w) {}
 
 		constexpr float& operator[](unsigned index) {
 			return this->pointer()[index];
-- 
2.43.0


From 82a4d3c57b3f1357eb19dd00d827eea18e32a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 148/160] fix: do not take undefined colours from malformed
 light colour lists

---
 src/vobs/Light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 9b34b2d..587e48a 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -51,8 +51,8 @@ namespace zenkit {
 			//   color-scalar = 1*3DIGIT
 
 			char c;
-			uint32_t cr, cg, cb;
 			while (colors >> c) {
+				uint32_t cr = 0, cg = 0, cb = 0;
 				if (isdigit(c)) {
 					colors.unget();
 					colors >> cr;
-- 
2.43.0


From f5b170344030f18afcc6dd591c0c1b75113649bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:08 +0000
Subject: [PATCH 149/160] fix: give the fields which a file may leave out a
 defined value

---
 include/zenkit/ModelHierarchy.hh | 4 ++--
 include/zenkit/ModelMesh.hh      | 2 +-
 include/zenkit/world/BspTree.hh  | 2 +-
 src/DaedalusScript.cc            | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/ModelHierarchy.hh b/include/zenkit/ModelHierarchy.hh
index 1019790..5ef585a 100644
--- a/include/zenkit/ModelHierarchy.hh
+++ b/include/zenkit/ModelHierarchy.hh
@@ -45,9 +45,9 @@ namespace zenkit {
 		Vec3 root_translation {};
 
 		/// \brief The checksum of this hierarchy.
-		std::uint32_t checksum;
+		std::uint32_t checksum {};
 
-		Date source_date;
+		Date source_date {};
 		std::string source_path;
 	};
 } // namespace zenkit
diff --git a/include/zenkit/ModelMesh.hh b/include/zenkit/ModelMesh.hh
index 010701f..604a414 100644
--- a/include/zenkit/ModelMesh.hh
+++ b/include/zenkit/ModelMesh.hh
@@ -29,6 +29,6 @@ namespace zenkit {
 		std::unordered_map<std::string, MultiResolutionMesh> attachments {};
 
 		/// \brief The checksum of the model hierarchy this model was made for.
-		std::uint32_t checksum;
+		std::uint32_t checksum {};
 	};
 } // namespace zenkit
diff --git a/include/zenkit/world/BspTree.hh b/include/zenkit/world/BspTree.hh
index 574e1cf..8838ace 100644
--- a/include/zenkit/world/BspTree.hh
+++ b/include/zenkit/world/BspTree.hh
@@ -56,7 +56,7 @@ namespace zenkit {
 		ZKINT void save(Write* w, GameVersion version) const;
 
 		/// \brief The mode of the tree (either indoor or outdoor).
-		BspTreeType mode;
+		BspTreeType mode {BspTreeType::INDOOR};
 
 		/// \brief A list of polygon indices.
 		std::vector<std::uint32_t> polygon_indices;
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 0eb6534..e5ddee9 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -353,13 +353,13 @@ namespace zenkit {
 		if (!this->is_member()) {
 			switch (this->_m_type) {
 			case DaedalusDataType::FLOAT: {
-				std::unique_ptr<float[]> value {new float[this->_m_count]};
+				std::unique_ptr<float[]> value {new float[this->_m_count] {}};
 				r->read(value.get(), this->_m_count * sizeof(float));
 				this->_m_value = std::move(value);
 				break;
 			}
 			case DaedalusDataType::INT: {
-				std::unique_ptr<std::int32_t[]> value {new std::int32_t[this->_m_count]};
+				std::unique_ptr<std::int32_t[]> value {new std::int32_t[this->_m_count] {}};
 				r->read(value.get(), this->_m_count * sizeof(std::uint32_t));
 				this->_m_value = std::move(value);
 				break;
-- 
2.43.0


From 3bf681a59ed525d3985131cd27c158a2109d274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:08 +0000
Subject: [PATCH 150/160] fix: write the textures of lightmaps in an order
 which does not depend on addresses

---
 src/Mesh.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index e51e363..fc4a574 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -266,17 +266,20 @@ namespace zenkit {
 		proto::write_chunk(w, MeshChunkType::LIGHTMAPS_SHARED, [this](Write* c) {
 			std::unordered_map<Texture*, uint32_t> shared_textures {};
 
+			std::vector<Texture*> textures {};
+
 			for (auto& lightmap : this->lightmaps) {
-				// Record the shared image with in a separate set.
-				shared_textures.try_emplace(lightmap.image.get(), 0);
+				// Record the shared image with in a separate set. The images are written in the order of their first use.
+				auto index = static_cast<uint32_t>(textures.size());
+				if (shared_textures.try_emplace(lightmap.image.get(), index).second) {
+					textures.push_back(lightmap.image.get());
+				}
 			}
 
-			c->write_uint(shared_textures.size());
+			c->write_uint(static_cast<uint32_t>(textures.size()));
 
-			uint32_t actual_index = 0;
-			for (auto& item : shared_textures) {
-				item.first->save(c);
-				item.second = actual_index++;
+			for (auto* texture : textures) {
+				texture->save(c);
 			}
 
 			c->write_uint(this->lightmaps.size());
-- 
2.43.0


From 59512a30296689c20dc2e59febcccc4a7a45ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:10 +0000
Subject: [PATCH 151/160] fix: log from several threads without mixing up the
 messages

---
 src/Logger.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index f8efbd5..fa02d86 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -18,23 +18,26 @@
 #define PREFIX "[" ANSI_MAGENTA ANSI_BOLD "ZenKit" ANSI_RESET "]"
 
 namespace zenkit {
-	static char zk_global_logger_buffer[4096];
-
 	std::function<void(LogLevel, char const*, char const*)> Logger::_s_callback {};
 	LogLevel Logger::_s_level {LogLevel::INFO};
 
 	ZKINT static void zk_internal_logger_default(LogLevel level, char const* name, char const* message) {
 		time_t now_t = time(nullptr);
-		tm* now = gmtime(&now_t);
+		tm now {};
+#ifdef _WIN32
+		gmtime_s(&now, &now_t);
+#else
+		gmtime_r(&now_t, &now);
+#endif
 
 		fprintf(stderr,
 		        ANSI_GRAY "%04d-%02d-%02d %02d:%02d:%02d " ANSI_RESET,
-		        now->tm_year + 1900,
-		        now->tm_mon + 1,
-		        now->tm_mday,
-		        now->tm_hour,
-		        now->tm_min,
-		        now->tm_sec);
+		        now.tm_year + 1900,
+		        now.tm_mon + 1,
+		        now.tm_mday,
+		        now.tm_hour,
+		        now.tm_min,
+		        now.tm_sec);
 
 		switch (level) {
 		case LogLevel::ERROR:
@@ -75,8 +78,10 @@ namespace zenkit {
 	void Logger::logv(LogLevel lvl, char const* name, char const* fmt, va_list ap) {
 		if (!_s_callback) return;
 		if (lvl > _s_level) return;
-		vsnprintf(zk_global_logger_buffer, sizeof zk_global_logger_buffer - 1, fmt, ap);
-		_s_callback(lvl, name, zk_global_logger_buffer);
+
+		char buffer[4096];
+		vsnprintf(buffer, sizeof buffer - 1, fmt, ap);
+		_s_callback(lvl, name, buffer);
 	}
 
 	void Logger::set(LogLevel lvl, std::function<void(LogLevel, char const*, char const*)> const& cb) {
-- 
2.43.0


From b74de6a63b296e336080ab048cae5b2f8ab7c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:10 +0000
Subject: [PATCH 152/160] fix: read BinSafe archives in several threads at once

---
 src/archive/ArchiveBinsafe.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index d99a8ab..2888726 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -63,10 +63,21 @@ namespace zenkit {
 			return false;
 		}
 
-		auto* object_name = strtok(it, " ]");
-		auto* class_name = strtok(nullptr, " ]");
-		auto* version = strtok(nullptr, " ]");
-		auto* index = strtok(nullptr, " ]");
+		// strtok can't be used here since it keeps state shared between threads.
+		auto next_token = [&it]() -> char* {
+			it += strspn(it, " ]");
+			if (*it == '\0') return nullptr;
+
+			auto* token = it;
+			it += strcspn(it, " ]");
+			if (*it != '\0') *it++ = '\0';
+			return token;
+		};
+
+		auto* object_name = next_token();
+		auto* class_name = next_token();
+		auto* version = next_token();
+		auto* index = next_token();
 
 		if (object_name == nullptr || class_name == nullptr || version == nullptr || index == nullptr) {
 			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
-- 
2.43.0


From 074786b0efdfca112a9f7fac140983c10b8aa362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:10 +0000
Subject: [PATCH 153/160] fix: save archives and disks in several threads at
 once

---
 src/Internal.hh               |  4 ++++
 src/Misc.cc                   | 10 ++++++++++
 src/Vfs.cc                    |  2 +-
 src/archive/ArchiveAscii.cc   |  4 ++--
 src/archive/ArchiveBinary.cc  |  6 ++++--
 src/archive/ArchiveBinsafe.cc |  4 ++--
 6 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/Internal.hh b/src/Internal.hh
index 180a3d4..4408189 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -5,6 +5,7 @@
 #include "zenkit/Misc.hh"
 
 #include <cstdint>
+#include <ctime>
 #include <memory>
 #include <unordered_set>
 
@@ -23,6 +24,9 @@ namespace zenkit {
 	/// \throws ParserError if there are not enough bytes left in the stream.
 	void ensure_available(Read* r, std::uint64_t count, std::uint64_t size, char const* what);
 
+	/// \return The given point in time in the local time zone. Unlike std::localtime, this may be used by many threads.
+	std::tm local_time(std::time_t t) noexcept;
+
 	/// \return The name of the given data type for use in messages.
 	char const* data_type_name(DaedalusDataType type) noexcept;
 
diff --git a/src/Misc.cc b/src/Misc.cc
index be16994..ef35516 100644
--- a/src/Misc.cc
+++ b/src/Misc.cc
@@ -34,4 +34,14 @@ namespace zenkit {
 			throw ParserError {what, "unexpected end of file: expected " + std::to_string(count) + " more elements"};
 		}
 	}
+
+	std::tm local_time(std::time_t t) noexcept {
+		std::tm result {};
+#ifdef _WIN32
+		localtime_s(&result, &t);
+#else
+		localtime_r(&t, &result);
+#endif
+		return result;
+	}
 } // namespace zenkit
diff --git a/src/Vfs.cc b/src/Vfs.cc
index d788c27..e04342e 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -245,7 +245,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *localtime(&unix_);
+		tm t = local_time(unix_);
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 25ca242..8bc09f5 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -444,8 +444,8 @@ namespace zenkit {
 			char date_buffer[20];
 			std::time_t clk;
 			std::time(&clk);
-			auto* time = std::localtime(&clk);
-			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			auto time = local_time(clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 			_m_date = date_buffer;
 		}
 
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 19f9054..f94b44c 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -3,6 +3,8 @@
 #include "ArchiveBinary.hh"
 #include "zenkit/Error.hh"
 
+#include "../Internal.hh"
+
 #include <charconv>
 #include <cstring>
 #include <stdexcept>
@@ -260,8 +262,8 @@ namespace zenkit {
 			char date_buffer[20];
 			std::time_t clk;
 			std::time(&clk);
-			auto* time = std::localtime(&clk);
-			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			auto time = local_time(clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 			_m_date = date_buffer;
 		}
 
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 2888726..f1d80b6 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -446,8 +446,8 @@ namespace zenkit {
 			char date_buffer[20];
 			std::time_t clk;
 			std::time(&clk);
-			auto* time = std::localtime(&clk);
-			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			auto time = local_time(clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 			_m_date = date_buffer;
 		}
 
-- 
2.43.0


From 519ba2d3c2b669f072f0a8de18e4f74015e68abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:10 +0000
Subject: [PATCH 154/160] fix: open files of one file system in several threads
 at once

---
 include/zenkit/Vfs.hh | 3 ++-
 src/Vfs.cc            | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..a0af114 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -7,6 +7,7 @@
 #include "Mmap.hh"
 #include "Stream.hh"
 
+#include <atomic>
 #include <filesystem>
 #include <memory>
 #include <set>
@@ -47,7 +48,7 @@ namespace zenkit {
 		~VfsFileDescriptor() noexcept;
 
 	private:
-		size_t* refcnt;
+		std::atomic<std::size_t>* refcnt;
 	};
 
 	class VfsNode;
diff --git a/src/Vfs.cc b/src/Vfs.cc
index e04342e..bf60a16 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -46,7 +46,7 @@ namespace zenkit {
 	VfsNotFoundError::VfsNotFoundError(std::string const& name) : Error("not found: \"" + name + "\"") {}
 
 	VfsFileDescriptor::VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zip, size_t raw)
-	    : memory(mem), size(len), raw_size(raw == 0 ? len : raw), zipped(zip), refcnt(del ? new size_t(1) : nullptr) {}
+	    : memory(mem), size(len), raw_size(raw == 0 ? len : raw), zipped(zip), refcnt(del ? new std::atomic<std::size_t>(1) : nullptr) {}
 
 	VfsFileDescriptor::VfsFileDescriptor(VfsFileDescriptor const& cpy)
 	    : memory(cpy.memory), size(cpy.size), raw_size(cpy.raw_size), zipped(cpy.zipped), refcnt(cpy.refcnt) {
@@ -56,9 +56,9 @@ namespace zenkit {
 
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
-		*this->refcnt -= 1;
 
-		if (*this->refcnt == 0) {
+		// Files may be opened by many threads at once, so the count must be changed and tested in a single step.
+		if (--*this->refcnt == 0) {
 			delete[] memory;
 			delete this->refcnt;
 		}
-- 
2.43.0


From 14e1f863a6b4cb3aa99da0529cae3fadae254c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:04 +0000
Subject: [PATCH 155/160] fix: reject raw entries of ASCII archives which are
 not hexadecimal

---
 src/archive/ArchiveAscii.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 8bc09f5..c609586 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -206,6 +206,16 @@ namespace zenkit {
 		return box;
 	}
 
+	/// \brief Decodes hexadecimal digits, failing if anything else is found.
+	static void parse_hex(char const* in, std::uint8_t* out, std::size_t count) {
+		for (auto i = 0u; i < count; ++i, in += 2) {
+			auto [end, error] = std::from_chars(in, in + 2, out[i], 16);
+			if (error != std::errc {} || end != in + 2) {
+				throw ParserError {"ReadArchive.Ascii", "raw entry contains invalid hexadecimal digits"};
+			}
+		}
+	}
+
 	Mat3 ReadArchiveAscii::read_mat3x3() {
 		auto in = read_entry("raw");
 
@@ -218,10 +228,7 @@ namespace zenkit {
 		Mat3 v {};
 		for (int32_t i = 0; i < 9; ++i) {
 			std::uint8_t tmp[4];
-			std::from_chars(beg_it + 0, beg_it + 2, tmp[0], 16);
-			std::from_chars(beg_it + 2, beg_it + 4, tmp[1], 16);
-			std::from_chars(beg_it + 4, beg_it + 6, tmp[2], 16);
-			std::from_chars(beg_it + 6, beg_it + 8, tmp[3], 16);
+			parse_hex(beg_it, tmp, sizeof tmp);
 			beg_it += 8;
 
 			memcpy(&v[i / 3][i % 3], tmp, sizeof(float));
@@ -245,13 +252,7 @@ namespace zenkit {
 		std::vector<std::byte> out {};
 		out.resize(length);
 
-		auto beg_it = in.data();
-
-		for (std::byte& i : out) {
-			std::from_chars(beg_it + 0, beg_it + 2, reinterpret_cast<std::uint8_t&>(i), 16);
-			beg_it += 2;
-		}
-
+		parse_hex(in.data(), reinterpret_cast<std::uint8_t*>(out.data()), length);
 		return Read::from(std::move(out));
 	}
 
-- 
2.43.0


From e2bf58de9efc2081d383e500b6dc293853a1d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:00 +0000
Subject: [PATCH 156/160] fix: recognise the end of file handles and C++
 streams and keep them usable there

---
 src/Stream.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..4655f73 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -227,7 +227,11 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				// feof() only reports the end of the file after an attempt to read past it.
+				auto c = fgetc(_m_stream);
+				if (c == EOF) return true;
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
@@ -240,11 +244,14 @@ namespace zenkit {
 
 			size_t read(void* buf, size_t len) noexcept override {
 				_m_stream->read(static_cast<char*>(buf), static_cast<long>(len));
-				return static_cast<size_t>(_m_stream->gcount());
+				auto count = static_cast<size_t>(_m_stream->gcount());
+				recover();
+				return count;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
 				_m_stream->seekg(off, INTO_CXX_WHENCE[static_cast<int>(whence)]);
+				recover();
 			}
 
 			[[nodiscard]] size_t tell() const noexcept override {
@@ -252,10 +259,17 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				auto end = _m_stream->peek() == std::istream::traits_type::eof();
+				recover();
+				return end;
 			}
 
 		private:
+			/// Reaching the end of the stream must not keep it from being used any further.
+			void recover() const noexcept {
+				if (!_m_stream->bad()) _m_stream->clear();
+			}
+
 			std::istream* _m_stream;
 		};
 
-- 
2.43.0


From 467c5b5b2d3a9d17eee0c1e6e9a27b34a8453d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:38 +0000
Subject: [PATCH 157/160] fix: refuse to grow symbols which hold no values

Functions, prototypes, classes and class members hold a null array, which DaedalusSymbol::grow dereferenced.
---
 src/DaedalusScript.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index e5ddee9..aa92e85 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -616,7 +616,8 @@ namespace zenkit {
 			}
 
 			this->_m_value = std::move(new_value);
-		} else if (std::holds_alternative<std::unique_ptr<std::int32_t[]>>(value)) {
+		} else if (std::holds_alternative<std::unique_ptr<std::int32_t[]>>(value) &&
+		           std::get<std::unique_ptr<std::int32_t[]>>(value) != nullptr) {
 			auto new_value = std::make_unique<std::int32_t[]>(this->_m_count + n);
 			auto& old_value = std::get<std::unique_ptr<std::int32_t[]>>(value);
 
-- 
2.43.0


From 7ff8b39d41451172f1b9946a9ddd5d9af909d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 158/160] fix: load empty files from compressed archives

They were loaded with the rest of the archive as their contents or, at the end of the archive, not at all.
---
 src/Vfs.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index bf60a16..e974f8e 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -733,7 +733,9 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
+				    // Files without contents are the same in both.
+				    auto zip = zipped && e_size != 0;
+				    if (zip ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
@@ -761,10 +763,10 @@ namespace zenkit {
 				    // For zipped files, the descriptor gets the full remaining buffer
 				    // so ReadZipped can read the compressed stream. raw_size preserves
 				    // the catalog entry size for fallback (e.g. raw audio files).
-				    auto desc_size = zipped ? (size - e_offset) : static_cast<std::size_t>(e_size);
+				    auto desc_size = zip ? (size - e_offset) : static_cast<std::size_t>(e_size);
 				    (void) parent->create(
 				        VfsNode::file(e_name,
-				                      VfsFileDescriptor {buf + e_offset, desc_size, false, zipped, e_size},
+				                      VfsFileDescriptor {buf + e_offset, desc_size, false, zip, e_size},
 				                      timestamp));
 			    }
 
-- 
2.43.0


From 005bdad3bfb8b071ddd259c11e26c495f5fb9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:48 +0000
Subject: [PATCH 159/160] fix: bound files of compressed archives which are
 stored as they are

Their size was not compared with that of the archive, reading them went past its end.
---
 src/Vfs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index e974f8e..57c19db 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -766,7 +766,11 @@ namespace zenkit {
 				    auto desc_size = zip ? (size - e_offset) : static_cast<std::size_t>(e_size);
 				    (void) parent->create(
 				        VfsNode::file(e_name,
-				                      VfsFileDescriptor {buf + e_offset, desc_size, false, zip, e_size},
+				                      VfsFileDescriptor {buf + e_offset,
+				                                         desc_size,
+				                                         false,
+				                                         zip,
+				                                         std::min<std::size_t>(e_size, desc_size)},
 				                      timestamp));
 			    }
 
-- 
2.43.0


From d8afdc5d94b424ce7b4608c8d4da2d163f4b7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:57 +0000
Subject: [PATCH 160/160] fix: check the blocks of compressed files before
 using them

Blocks of wrong sizes made reading them go past the end of the cache or allocate any amount of memory.
---
 src/Stream.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/Stream.cc b/src/Stream.cc
index 4655f73..dfc3084 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -610,15 +610,37 @@ namespace zenkit {
 						return false;
 					}
 
+					// Every block has a header, at least.
+					auto here = _m_stream->tell();
+					_m_stream->seek(0, Whence::END);
+					auto end = _m_stream->tell();
+					_m_stream->seek(static_cast<ssize_t>(here), Whence::BEG);
+					if (_m_header.blocks_count > (end - here) / (3 * sizeof(uint32_t))) {
+						ZKLOGE("ReadZipped", "Not enough data for %u blocks", _m_header.blocks_count);
+						return false;
+					}
+
 					_m_blocks.resize(_m_header.blocks_count);
 
 					// Scan through the interleaved block headers to record each
 					// block's compressed data offset, then skip past its data.
+					size_t remaining = _m_header.length_uncompressed;
 					for (auto& blk : _m_blocks) {
 						blk.len_src = _m_stream->read_uint();
 						blk.len_cmp = _m_stream->read_uint();
 						blk.size_blk = _m_stream->read_uint();
 						blk.offset = _m_stream->tell(); // compressed data starts here
+
+						// Validate: all blocks but the last one are full, their data is part of the stream
+						// and can't expand to more than what Deflate allows for (1:1032).
+						size_t expected = std::min<size_t>(remaining, _m_header.block_size);
+						if (blk.len_src != expected || blk.len_cmp > end - blk.offset ||
+						    blk.len_src / 1032 > blk.len_cmp) {
+							ZKLOGE("ReadZipped", "Invalid block: length=%u, compressed=%u", blk.len_src, blk.len_cmp);
+							return false;
+						}
+
+						remaining -= expected;
 						_m_stream->seek(static_cast<ssize_t>(blk.len_cmp), Whence::CUR);
 					}
 
-- 
2.43.0

