From 19154a3683aa5d50ae3bd9fbe3f6137730527b67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 01/30] fix: CCH construction no longer calls an empty log
 callback

---
 src/customizable_contraction_hierarchy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..37d5991 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -449,10 +449,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	}
 
 	// filter up graph
-	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
-	else
-	{
+	if(!filter_always_inf_arcs){
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}else{
 		if(log_message){
 			log_message("Start filtering upward arcs");
 			timer = -get_micro_time();
-- 
2.43.0


From 6f0475ce262d6e7a004975d2510d651ae7da3e47 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 02/30] fix: no division by zero when logging the construction
 of an empty CCH

---
 src/customizable_contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 37d5991..f05445e 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -442,9 +442,9 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 			nodes_in_search_space_sum += nodes_in_search_space[x];
 			arcs_in_search_space_sum += arcs_in_search_space[x];
 		}
-		log_message("The average number of nodes in a search space is "+std::to_string(nodes_in_search_space_sum/node_count));
+		log_message("The average number of nodes in a search space is "+std::to_string(node_count == 0 ? 0 : nodes_in_search_space_sum/node_count));
 		log_message("The maximum number of nodes in a search space is "+std::to_string(max_nodes_in_search_space));
-		log_message("The average number of arcs in a search space is "+std::to_string(arcs_in_search_space_sum/node_count));
+		log_message("The average number of arcs in a search space is "+std::to_string(node_count == 0 ? 0 : arcs_in_search_space_sum/node_count));
 		log_message("The maximum number of arcs in a search space is "+std::to_string(max_arcs_in_search_space));
 	}
 
-- 
2.43.0


From 48d4c803d17ef824171543802a5125d1b4e2ff09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 03/30] fix: apply_permutation_to_possibly_invalid_elements_of
 must skip invalid elements

---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From 7cd73e2db20ceada6488af98a4cb3888fe1bf757 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 04/30] fix: filtering a vector in place must not move elements
 onto themselves

---
 include/routingkit/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/filter.h b/include/routingkit/filter.h
index 78990d3..aa06c67 100644
--- a/include/routingkit/filter.h
+++ b/include/routingkit/filter.h
@@ -16,7 +16,8 @@ void inplace_keep_element_of_vector_if(const BitVector&keep_filter, std::vector<
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(keep_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
@@ -31,7 +32,8 @@ void inplace_remove_element_from_vector_if(const BitVector&remove_filter, std::v
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(!remove_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
-- 
2.43.0


From b8fc131592154424529af44dac550298e0a54a0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 05/30] fix: convert_arc_path_to_node_path must also translate
 the first arc

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From b95390756c1a4c0fc46f913f67d568bdcf6ddb9f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 06/30] fix: bit vectors whose size is a multiple of 512 have
 no padding bits

---
 src/bit_vector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..aea0abc 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -116,6 +116,8 @@ namespace {
 		v8_uint64_t u = {0};
 
 		uint64_t x = size % 512;
+		if(x == 0)
+			return ~u; // all blocks are full, there is no padding
 		uint8_t i = 0;
 		while(x >= 64){
 			u[i++] = ~0ull;
@@ -319,7 +321,7 @@ void BitVector::resize(uint64_t new_size, bool value){
 		} else if(get_uint8_count(new_size) == get_uint8_count(size_)){
 			if(value == false){
 				size_ = new_size;
-			} else {
+			} else if(new_size != size_) {
 				((v8_uint64_t*)data_)[size_/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
 				size_ = new_size;
 			}
-- 
2.43.0


From 84fd893a3a836529b3441a33546c58b830eb1c40 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 07/30] fix: copying an empty bit vector must yield an empty
 bit vector without storage

---
 src/bit_vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index aea0abc..a26a6c6 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -230,8 +230,8 @@ BitVector::~BitVector(){
 }
 
 BitVector::BitVector(const BitVector&o):
-	data_(static_cast<uint64_t*>(aligned_alloc(64, get_uint8_count(o.size_)))), size_(o.size_){
-	if(data_ == nullptr)
+	data_(o.size_ == 0 ? nullptr : static_cast<uint64_t*>(aligned_alloc(64, get_uint8_count(o.size_)))), size_(o.size_){
+	if(data_ == nullptr && size_ != 0)
 		throw std::bad_alloc();
 
 	assert(are_all_padding_bits_zero(o));
-- 
2.43.0


From b5dfb85141edc54671d0624e2fa02b9f7b916a85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 08/30] fix: TagMap::clear must remove the entries

---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From d9edc673316b7d00e5269b801360c67f4bc45112 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 09/30] fix: varints that do not fit into 64 bit must be
 rejected

---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From 0610a066dbe0910efd0122403960372100af9ac7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 10/30] fix: FileDataSource::size threw on success and ignored
 failures

---
 src/file_data_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..0658505 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -73,7 +73,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf) != 0){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
-- 
2.43.0


From 2dd92051453bf5c6bea75c27e96e113813aeeafe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:08 +0000
Subject: [PATCH 11/30] fix: saving a vector or an index must report when the
 data could not be written

---
 include/routingkit/vector_io.h | 8 +++++++-
 src/vector_io.cpp              | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4de32ad..4abc7bb 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -18,7 +18,10 @@ void save_vector(const std::string&file_name, const std::vector<T>&vec){
 	std::ofstream out(file_name, std::ios::binary);
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
-	out.write(reinterpret_cast<const char*>(&vec[0]), vec.size()*sizeof(T));
+	out.write(reinterpret_cast<const char*>(vec.data()), vec.size()*sizeof(T));
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write \""+file_name+"\".");
 }
 
 template<class T>
@@ -158,6 +161,9 @@ void open_file_for_saving(const std::string&file_name, const F&f){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	f(out);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write \""+file_name+"\".");
 }
 
 template<class F>
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..30b9fe9 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,10 +5,15 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
 	}
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write \""+file_name+"\".");
 }
 
 template<>
@@ -41,6 +46,9 @@ void save_bit_vector(const std::string&file_name, const BitVector&vec){
 	uint64_t size = vec.size();
 	out.write(reinterpret_cast<const char*>(&size), 8);
 	out.write(reinterpret_cast<const char*>(vec.data()), vec.uint512_count()*64);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write \""+file_name+"\".");
 }
 
 BitVector load_bit_vector(const std::string&file_name){
-- 
2.43.0


From e542e96367985bb3da5d39475afb2bda81a76742 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:08 +0000
Subject: [PATCH 12/30] fix: loading a vector must report when the data could
 not be read

---
 include/routingkit/vector_io.h | 4 +++-
 src/vector_io.cpp              | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4abc7bb..94ef5ac 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -36,7 +36,9 @@ std::vector<T>load_vector(const std::string&file_name){
 		throw std::runtime_error("File \""+file_name+"\" can not be a vector of the requested type because it's size is no multiple of the element type's size.");
 	in.seekg(0, std::ios::beg);
 	std::vector<T>vec(file_size / sizeof(T));
-	in.read(reinterpret_cast<char*>(&vec[0]), file_size);
+	in.read(reinterpret_cast<char*>(vec.data()), file_size);
+	if(!in)
+		throw std::runtime_error("Could not read \""+file_name+"\".");
 	return vec; // NVRO
 }
 
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 30b9fe9..15f7b98 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -61,10 +61,14 @@ BitVector load_bit_vector(const std::string&file_name){
 	
 	uint64_t size;
 	in.read(reinterpret_cast<char*>(&size), 8);
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if(!in)
+		throw std::runtime_error("Could not read \""+file_name+"\".");
+	if(file_size % 64 != 8 || size/512 + (size%512 != 0) != file_size/64)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
+	if(!in)
+		throw std::runtime_error("Could not read \""+file_name+"\".");
 	return vec; // NVRO
 }
 
-- 
2.43.0


From e63c7698c93ba9e372ef997bafdbaea7018f8ad6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:20 +0000
Subject: [PATCH 13/30] fix: move assigning a file data source must close the
 file it held

---
 src/file_data_source.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0658505..13d753a 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,8 +37,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = -1;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = -1;
+	}
 	return *this;
 }
 
@@ -114,8 +117,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = nullptr;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From d3582cdb23358eaef3dd39ac96a833a4dc97f672 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:20 +0000
Subject: [PATCH 14/30] fix: the reader thread must hold the lock when it
 publishes an exception

---
 src/buffered_asynchronous_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..e0326b5 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,8 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From 01cdf41586fe3bb54059b2de3860b9f0d217a459 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 15/30] fix: pinning more nodes than the graph has must not
 write out of bounds

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..8df3205 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1870,6 +1870,8 @@ namespace{
 		const std::vector<unsigned>&backward_weight
 	){
 		target_count = external_target_list.size();
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
 
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
-- 
2.43.0


From 0774e79de7df67c69089a880b70e4b732ad74eba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 16/30] fix: the expected size of a CH file must not be
 computed with 32 bit

---
 src/contraction_hierarchy.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 8df3205..3109588 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1348,14 +1348,14 @@ namespace{
 		ch.rank = read_vector<unsigned>(in, header.node_count);
 		ch.order = invert_permutation(ch.rank);
 
-		ch.forward.first_out = read_vector<unsigned>(in, header.node_count+1);
+		ch.forward.first_out = read_vector<unsigned>(in, header.node_count+1ull);
 		ch.forward.head = read_vector<unsigned>(in, header.forward_arc_count);
 		ch.forward.weight = read_vector<unsigned>(in, header.forward_arc_count);
 		ch.forward.is_shortcut_an_original_arc = read_bit_vector(in, header.forward_arc_count);
 		ch.forward.shortcut_first_arc = read_vector<unsigned>(in, header.forward_arc_count);
 		ch.forward.shortcut_second_arc = read_vector<unsigned>(in, header.forward_arc_count);
 
-		ch.backward.first_out = read_vector<unsigned>(in, header.node_count+1);
+		ch.backward.first_out = read_vector<unsigned>(in, header.node_count+1ull);
 		ch.backward.head = read_vector<unsigned>(in, header.backward_arc_count);
 		ch.backward.weight = read_vector<unsigned>(in, header.backward_arc_count);
 		ch.backward.is_shortcut_an_original_arc = read_bit_vector(in, header.backward_arc_count);
@@ -1369,23 +1369,27 @@ namespace{
 ContractionHierarchy ContractionHierarchy::read(std::function<void(char*, unsigned long long)>in, unsigned long long file_size){
 	CHFileHeader header = read_value<CHFileHeader>(in);
 	check_header(header);
+	const unsigned long long
+		node_count = header.node_count,
+		forward_arc_count = header.forward_arc_count,
+		backward_arc_count = header.backward_arc_count;
 	unsigned long long expected_file_size = (
 		  sizeof(CHFileHeader)
 		+ sizeof(unsigned)*(
-			header.node_count
+			node_count
 			+ (
-				header.node_count+1 +
-				4*header.forward_arc_count
+				node_count+1 +
+				4*forward_arc_count
 
 			)
 			+ (
-				header.node_count+1 +
-				4*header.backward_arc_count
+				node_count+1 +
+				4*backward_arc_count
 
 			)
 		)
-		+ ((header.backward_arc_count+511)/512) * 64
-		+ ((header.forward_arc_count+511)/512) * 64
+		+ ((backward_arc_count+511)/512) * 64
+		+ ((forward_arc_count+511)/512) * 64
 	);
 	if(expected_file_size != file_size)
 		throw std::runtime_error("CH file has a different size than specified in the header. This file is corrupt.");
-- 
2.43.0


From a08c668b0dea52816e6cd6bf79e054e5e08d5a77 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 17/30] fix: geo_dist must not return NaN for (nearly)
 coinciding or antipodal points

---
 include/routingkit/geo_dist.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..27fa48d 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,11 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+	// rounding errors can move len slightly out of the domain of acos
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From c5d15a0ccee097ef7bf52417ce4dd02ad24419b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:21:04 +0000
Subject: [PATCH 18/30] fix: decomposing a graph fragment without nodes must
 yield no components

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..a533a14 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -615,6 +615,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 	unsigned node_count = fragment.node_count();
 	unsigned arc_count = fragment.arc_count();
 
+	if(node_count == 0)
+		return {};
+
 	unsigned component_count = 0;
 	std::vector<unsigned>component(node_count, invalid_id);
 	{
-- 
2.43.0


From df1029b9b022c6ac614386049b645a62a6ecee51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 19/30] fix: PBF string ids must be smaller than the size of
 the string table

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..144159e 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -365,13 +365,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -438,13 +438,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -508,13 +508,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -588,13 +588,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From 916aff06d0ec3c35f377de8b559b6628f80f0370 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 20/30] fix: PBF feature names must be compared as a whole

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 144159e..e7b330d 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -146,10 +146,10 @@ namespace{
 							[&](uint64_t key_id, double num){},
 							[&](uint64_t key_id, const char*str_begin, const char*str_end){
 								if(key_id == 4){ // must support
-									if(!std::equal(str_begin, str_end, "DenseNodes"))
+									if(std::string(str_begin, str_end) != "DenseNodes")
 										throw std::runtime_error("Required OSM PBF feature \""+std::string(str_begin, str_end)+"\" is unknown");
 								}else if(key_id == 5){ // may exploit
-									if(std::equal(str_begin, str_end, "Sort.Type_then_ID"))
+									if(std::string(str_begin, str_end) == "Sort.Type_then_ID")
 										is_ordered = true;
 								}
 							}
-- 
2.43.0


From 38fbf41786d9cb267d4cddedac9136751887905e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 21/30] fix: a PBF file truncated within an unknown block must
 be reported

---
 src/osm_decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index e7b330d..595ebf6 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -159,7 +159,7 @@ namespace{
 						else
 							status = is_header_info_available_bit | was_header_read_bit;
 					} else {
-						reader.read(data_size);
+						reader.read_or_throw(data_size);
 						continue;
 					}
 				}
-- 
2.43.0


From c5e1222e14a0eaa8c15d8a90339d7fd2c4535ca5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 22/30] fix: the zlib stream must be released if a PBF blob is
 corrupt

---
 src/osm_decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 595ebf6..36e332a 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -225,6 +225,7 @@ namespace{
 						throw std::runtime_error("PBF error: Failed to initialize zlib stream.");
 					}
 					if(inflate(&z, Z_FINISH) != Z_STREAM_END) {
+						inflateEnd(&z);
 						throw std::runtime_error("PBF error: Failed to completely inflate zlib stream. Probably the OSM blob decompresses to something larger than reported in the header.");
 					}
 					if(inflateEnd(&z) != Z_OK) {
-- 
2.43.0


From d9a8a31a492aef059f1ce95c4d0c64ff153c062b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 23/30] fix: PBF block offsets are plain integers that are
 added once to the coordinates

---
 src/osm_decoder.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 36e332a..f8e99b1 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -286,9 +286,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = (int64_t)num;
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = (int64_t)num;
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -316,8 +316,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -334,9 +334,9 @@ namespace {
 						if(key_id == 1)
 							osm_node_id = num;
 						else if(key_id == 19)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 						else if(key_id == 20)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -419,11 +419,11 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				double latitude = primblock_lat_offset, longitude = primblock_lon_offset;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					latitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					longitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
-- 
2.43.0


From 02a2a20c2f23a48814849d9bbb70acb3da99813b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:18 +0000
Subject: [PATCH 24/30] fix: PBF nodes that are not dense use the fields 1, 8
 and 9 in zigzag encoding

---
 src/osm_decoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index f8e99b1..ee52eb2 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -332,10 +332,10 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
 							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
+						else if(key_id == 9)
 							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
-- 
2.43.0


From c61f4c05677dd74aafa758d824ca8f2089e81e9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:18 +0000
Subject: [PATCH 25/30] fix: the PBF decompressor status is shared between
 threads and must be atomic

---
 src/osm_decoder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index ee52eb2..9d3d1a7 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -72,6 +72,11 @@ namespace{
 	class OsmPBFDecompressor{
 	public:
 		OsmPBFDecompressor():status(0){}
+		OsmPBFDecompressor&operator=(OsmPBFDecompressor&&o){
+			status = o.status.load();
+			reader = std::move(o.reader);
+			return *this;
+		}
 		OsmPBFDecompressor(std::function<unsigned long long(char*, unsigned long long)> data_source):
 			status(0),
 			reader(data_source, 64<<20){
@@ -239,7 +244,7 @@ namespace{
 			};
 		}
 	private:
-		uint64_t status;
+		std::atomic<uint64_t>status; // written by the thread that decompresses, read by the thread that waits for the header
 		BufferedAsynchronousReader reader;
 	};
 }
@@ -678,10 +683,8 @@ void ordered_read_osm_pbf(
 	BufferedAsynchronousReader reader(decompressor);
 
 	if(!file_is_ordered_even_though_file_header_says_that_it_is_unordered){
-		while((decompressor.get_status() & is_header_info_available_bit) == 0){
-			std::atomic_thread_fence(std::memory_order::memory_order_seq_cst);
+		while((decompressor.get_status() & is_header_info_available_bit) == 0)
 			std::this_thread::yield();
-		}
 	}
 
 
-- 
2.43.0


From 41d46f83d653590953dcb4730cb6c42881be1ed1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:18 +0000
Subject: [PATCH 26/30] fix: reading an empty or corrupt PBF file in order must
 not wait forever for its header

---
 src/osm_decoder.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 9d3d1a7..8e58ff0 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -91,7 +91,7 @@ namespace{
 		}
 
 		std::function<unsigned long long(char*, unsigned long long)> get_read_function_object(){
-			return [&](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
+			auto read_blob = [this](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
 				assert(how_much_to_read >= minimum_read_size());
 
 				const char*blob_begin, *blob_end;
@@ -242,6 +242,19 @@ namespace{
 					return uncompressed_data_size + 4;
 				}
 			};
+
+			return [this, read_blob](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
+				unsigned long long bytes_read;
+				try{
+					bytes_read = read_blob(buffer, how_much_to_read);
+				}catch(...){
+					// nobody may wait for a header that will never be read
+					status |= is_header_info_available_bit;
+					throw;
+				}
+				status |= is_header_info_available_bit;
+				return bytes_read;
+			};
 		}
 	private:
 		std::atomic<uint64_t>status; // written by the thread that decompresses, read by the thread that waits for the header
-- 
2.43.0


From dda2e07a4d2b2e6cd0c69f3458d47f8deaf91bd5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:34 +0000
Subject: [PATCH 27/30] fix: the simple OSM loaders must honour that the caller
 knows the file to be ordered

---
 src/osm_simple.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..6c92d65 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -37,7 +37,8 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 		[&](uint64_t osm_relation_id, const std::vector<OSMRelationMember>&member_list, const TagMap&tags, std::function<void(OSMTurnRestriction)>on_new_restriction){
 			return decode_osm_car_turn_restrictions(osm_relation_id, member_list, tags, on_new_restriction, log_message);
 		},
-		log_message
+		log_message,
+		file_is_ordered_even_though_file_header_says_that_it_is_unordered
 	);
 
 	mapping = OSMRoutingIDMapping(); // release memory
@@ -86,7 +87,8 @@ SimpleOSMPedestrianRoutingGraph simple_load_osm_pedestrian_routing_graph_from_pb
 			return OSMWayDirectionCategory::open_in_both;
 		},
 		nullptr,
-		log_message
+		log_message,
+		file_is_ordered_even_though_file_header_says_that_it_is_unordered
 	);
 
 	mapping = OSMRoutingIDMapping(); // release memory
@@ -130,7 +132,8 @@ SimpleOSMBicycleRoutingGraph simple_load_osm_bicycle_routing_graph_from_pbf(
 			return get_osm_bicycle_direction_category(osm_way_id, way_tags, log_message);
 		},
 		nullptr,
-		log_message
+		log_message,
+		file_is_ordered_even_though_file_header_says_that_it_is_unordered
 	);
 
 	unsigned arc_count = routing_graph.head.size();
-- 
2.43.0


From 1f8b5008cd10444a13cb597306b09533ffa993a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:34 +0000
Subject: [PATCH 28/30] fix: the travel time of long arcs must not overflow

---
 src/osm_simple.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 6c92d65..b130aae 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -52,9 +52,11 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 
 	ret.travel_time = ret.geo_distance;
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		uint64_t travel_time = ret.travel_time[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		ret.travel_time[a] = travel_time;
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From 54ce3dbff590fee849e3e8242c59b96740ec2b70 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:42:43 +0000
Subject: [PATCH 29/30] fix: without POSIX the size of a file whose end cannot
 be determined must be reported as failure

---
 src/file_data_source.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 13d753a..a14894f 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -156,11 +156,11 @@ unsigned long long FileDataSource::size()const{
 		if(fseek(file_descriptor, 0, SEEK_END))
 			throw std::runtime_error("fseek failed on file opened for reading.");
 
-		unsigned long long size = ftell(file_descriptor);
+		auto size = ftell(file_descriptor);
 		if(fseek(file_descriptor, x, SEEK_SET))
 			throw std::runtime_error("fseek failed on file opened for reading, file stream could be in an unexpected state.");
 
-		if(x == -1L)
+		if(size == -1L)
 			throw std::runtime_error("ftell failed on file opened for reading, file stream could be in an unexpected state.");
 
 		return size;
-- 
2.43.0


From 42db96fb3485d6d5d52396be759e0c588b613d41 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:41:10 +0000
Subject: [PATCH 30/30] fix: a reader that cannot be started must not terminate
 the program

If the buffer could not be allocated or the worker thread could not be
started, the destructor of Impl joined a thread that does not exist, which
ends the program, and deleted an uninitialised pointer.
---
 src/buffered_asynchronous_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index e0326b5..5cd5cb9 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -14,7 +14,7 @@ const int blocks_per_buffer = 5;
 
 struct BufferedAsynchronousReader::Impl{
 	unsigned block_size;
-	char*buffer;
+	char*buffer = nullptr;
 
 	unsigned data_begin, data_end;
 
@@ -35,7 +35,8 @@ struct BufferedAsynchronousReader::Impl{
 			was_termination_requested = true;
 		}
 		main_thread_has_done_something.notify_one();
-		worker.join();
+		if(worker.joinable())
+			worker.join();
 
 		delete[]buffer;
 	}
-- 
2.43.0

