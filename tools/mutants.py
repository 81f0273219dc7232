#!/usr/bin/env python3
"""Mutation campaign: mutants.py [name-prefix...]  runs each mutant's check against a scratch copy (VERIF_REPO)."""
import os, subprocess, sys, time
M = []
def m(name, props, *edits):
    M.append((name, props.split(), edits))
TH, TP, DS, DSH, DT = ['include/chia/' + x for x in ('Thread.h', 'ThreadPool.h', 'DiskSort.hpp', 'DiskSort.h', 'DiskTable.h')]
P1, P1H, P2, P2H, P3, P3H, P4, EN, UT, CP, BF, BI = ['include/chia/' + x for x in ('phase1.hpp', 'phase1.h', 'phase2.hpp', 'phase2.h', 'phase3.hpp', 'phase3.h', 'phase4.hpp', 'encoding.hpp', 'util.hpp', 'copy.h', 'bitfield.hpp', 'bitfield_index.hpp')]
MAIN = 'src/chia_plot.cpp'
# --- C01..C04
m('c01a', 'C01', (TH, 'while(do_run && is_avail && is_busy) {', 'if(do_run && is_avail && is_busy) {'))
m('c01b', 'C01', (TH, '''		while(do_run && is_avail) {
			signal.wait(lock);
		}
		if(!do_run) {''', '''		if(do_run && is_avail) {
			signal.wait(lock);
		}
		if(!do_run) {'''))
m('c01c', 'C01', (TH, '''			T tmp = std::move(input);
			is_avail = false;
			is_busy = true;
			lock.unlock();''', '''			is_avail = false;
			is_busy = true;
			lock.unlock();
			T tmp = std::move(input);'''))
m('c01d', 'C01', (TH, '''	void close() {
		wait();
		std::unique_lock<std::mutex> lock(mutex);''', '''	void close() {
		std::unique_lock<std::mutex> lock(mutex);
		while(do_run && is_avail) {
			signal.wait(lock);
		}
		if(is_fail) {
			throw std::runtime_error("thread failed with: " + ex_what);
		}'''))
m('c01e', 'C01', (TH, '''		while(do_run && (is_avail || is_busy)) {
			signal.wait(lock);
		}''', '''		if(do_run && (is_avail || is_busy)) {
			signal.wait(lock, [this]() { return !do_run || !is_busy; });
		}'''))
m('c02a', 'C02', (TP, '''		state->thread->wait();
		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = next;
		}
		state->thread->take(data);''', '''		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = next;
		}
		state->thread->take(data);'''))
m('c02b', 'C02', (TP, '''		if(output) {
			output->take(out);	// only one thread can be at this position
		}
		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = -1;
		}
		state->signal.notify_all();''', '''		{
			std::lock_guard<std::mutex> lock(state->mutex);
			state->job = -1;
		}
		state->signal.notify_all();
		if(output) {
			output->take(out);	// only one thread can be at this position
		}'''))
m('c02c', 'C02', (TP, 'while(prev->job < job) {', 'while(prev != state && prev->job + 1 == job && threads.size() > 2) {'))
m('c02d', 'C02', (TP, '''	void close() {
		wait();
		for(const auto& state : threads) {
			state->thread->close();
		}
		threads.clear();''', '''	void close() {
		if(!threads.empty()) {
			threads[(next + threads.size() - 1) % threads.size()]->thread->wait();
		}
		for(const auto& state : threads) {
			state->thread->close();
		}
		threads.clear();'''))
m('c03a', 'C03', (TH, 'signal.notify_all();	// notify about is_busy change', 'signal.notify_one();	// notify about is_busy change'))
m('c03b', 'C03', (TH, '''			lock.unlock();
			signal.notify_all();		// notify about is_busy + is_avail change''', '''			lock.unlock();
			signal.notify_one();		// notify about is_busy + is_avail change'''))
m('c03c', 'C03', (TH, '''			// simple notify since thread is just waiting for new input
			lock.unlock();
			signal.notify_all();''', '''			// simple notify since thread is just waiting for new input
			lock.unlock();
			signal.notify_one();'''))
m('c03d', 'C03', (TH, '''				signal.notify_all();
				signal.wait(lock);
			}
		} else {''', '''				signal.wait(lock);
			}
		} else {'''), (TH, '''				signal.notify_all();	// notify about is_busy change
''', ''), (TH, '			is_busy = false;\n', '			is_busy = false;\n			if(!is_avail) signal.notify_one();\n'))
m('c03e', 'C03', (TH, '''		std::unique_lock<std::mutex> lock(mutex);
		do_run = false;
		if(thread.joinable()) {
			lock.unlock();
			signal.notify_all();''', '''		do_run = false;
		if(thread.joinable()) {
			signal.notify_all();'''))
m('c04a', 'C04', (TH, '''				do_run = false;
				is_fail = true;
				ex_what = ex.what();''', '''				is_fail = true;
				ex_what = ex.what();'''))
m('c04b', 'C04', (TH, '''		if(is_fail) {
			throw std::runtime_error("thread failed with: " + ex_what);''', '''		if(is_fail) {
			is_fail = false;
			throw std::runtime_error("thread failed with: " + ex_what);'''))
m('c04c', 'C04', (TH, '''		while(do_run && (is_avail || is_busy)) {
			signal.wait(lock);
		}
		if(is_fail) {''', '''		while(do_run && (is_avail || is_busy)) {
			signal.wait(lock);
		}
		if(is_fail && !is_avail) {'''))
m('c04d', 'C04', (TH, 'ex_what = ex.what();\n			}', 'ex_what = ex.what();\n			} catch(...) {\n				lock.lock();\n			}'))
# --- C05..C07
m('c05a', 'C05', (DS, 'std::sort(input.first.begin(), input.first.end(),', 'if(!input.first.empty() && Key{}(input.first.front()) > Key{}(input.first.back()) || input.first.size() > 2) std::sort(input.first.begin(), input.first.end(),'))
m('c05b', 'C05', (DS, 'return Key{}(lhs) < Key{}(rhs);', 'return uint64_t(Key{}(lhs)) < uint64_t(Key{}(rhs));'))
m('c05c', 'C05', (DS, '''		if(buffer.count) {
			disk->write(index, buffer.data, buffer.count);
			buffer.count = 0;
		}''', '''		if(buffer.count) {
			disk->write(index, buffer.data, buffer.count);
		}'''))
m('c05d', 'C05', (DS, 'bucket.open("wb");', 'bucket.open("ab");'))
m('c05e', 'C05', (DS, '	uint64_t offset = index.second;\n', '	uint32_t offset = uint16_t(index.second) | (index.second & ~size_t(0xFFFF));\n	if(index.first == 0) offset = 0;\n'), (DS, 'offset += buckets[i].num_entries;', 'offset += std::min<size_t>(buckets[i].num_entries, 1 << 16);'))
m('c05f', 'C05', (DS, 'auto& block = table[Key{}(entry) >> key_shift];', 'auto& block = table[uint32_t(Key{}(entry) >> key_shift)];'))
m('c06a', 'C06', (DS, '''		if(!keep_files) {
			bucket.remove();
		}
	}
	buckets.clear();''', '''		if(!keep_files && bucket.num_entries) {
			bucket.remove();
		}
	}
	buckets.clear();'''))
m('c06b', 'C06', (DS, 'if(index >= buckets.size()) {\n		throw std::logic_error("bucket index out of range: "', 'if(index > buckets.size()) {\n		throw std::logic_error("bucket index out of range: "'))
m('c06c', 'C06', (DS, 'keep_files(read_only),', 'keep_files(false),'))
m('c06d', 'C06', (DS, 'bucket.num_entries = get_file_size(bucket.file_name.c_str()) / T::disk_size;', 'bucket.num_entries = uint16_t(get_file_size(bucket.file_name.c_str()) / T::disk_size);'))
m('c06e', 'C06', (DS, '''	if(is_finished) {
		throw std::logic_error("read only");
	}
''', '''	if(is_finished && index >= buckets.size()) {
		throw std::logic_error("read only");
	}
'''))
m('c07a', 'C07', (DT, 'file_out = fopen(file_name.c_str(), "wb");', 'file_out = fopen(file_name.c_str(), "ab");'))
m('c07b', 'C07', (DT, '''		if(int err = fseek(local.file, param.first * T::disk_size, SEEK_SET)) {''', '''		if(int err = fseek(local.file, uint32_t(param.first * T::disk_size), SEEK_SET)) {'''))
m('c07c', 'C07', (DT, 'out.second = param.first;', 'out.second = (param.first / block_size_) * block_size_;'), (DT, '	write_buffer_t<T> cache;\n	FILE*', '	static constexpr size_t block_size_ = 1;\n	write_buffer_t<T> cache;\n	FILE*'))
m('c07d', 'C07', (DT, '		if(left_over) {\n', '		if(left_over > 1 || (left_over && !num_blocks)) {\n'))
# --- C08
m('c08a', 'C08', (P1H, 'pos >>= 4;\n		pos &= 0xFFFFFFFFF;				// 36 bit', 'pos >>= 4;\n		pos &= 0x3FFFFFFFF;				// 34 bit'))
m('c08b', 'C08', (P2H, 'key &= 0x7FFFFFFFF;				// 35 bit', 'key &= 0x3FFFFFFFF;				// 34 bit'))
m('c08c', 'C08', (P1H, 'off |= uint16_t(buf[5]) << 2;', 'off |= uint16_t(buf[5] & 0x7F) << 2;'))
m('c08d', 'C08', (P3H, '''		memcpy(&key, buf, 5);
		key &= 0xFFFFFFFFF;				// 36 bit
		pos = 0;''', '''		memcpy(&key, buf, 5);
		key &= 0xFFFFFFFFF;				// 36 bit'''))
m('c08e', 'C08', (P1H, '''			const auto tmp = (off << 6) | buf[9];
			memcpy(buf + 9, &tmp, 2);''', '''			const auto tmp = (off << 6) | buf[9];
			memcpy(buf + 9, &tmp, 3);'''))
m('c08f', 'C08', (P1H, '		if(KBYTES < 5) {\n			buf[4] = 0;\n		}\n', ''))
m('c08g', 'C08', (P3H, 'const auto tmp = (key << 4) | buf[8];', 'const auto tmp = (key << 4) | (buf[8] & 7);'))
# --- C09
m('c09a', 'C09', (P1, '(y << kExtraBits) | (x >> x_shift)', '(y << kExtraBits) + (x >> x_shift)'))      # equivalent: must stay quiet
m('c09b', 'C09', (P1, 'if(num_blocks > 4) {', 'if(num_blocks > 3) {'))
m('c09c', 'C09', (P1, 'C_bits = slice_bits(C, hash_bytes, k_ + kExtraBits, kVectorLens[table_index_ + 1] * k_);', 'C_bits = slice_bits(C, hash_bytes, k_ + kExtraBits, std::min<int>(kVectorLens[table_index_ + 1] * k_, 128));'))
m('c09d', 'C09', (P1, 'blake3_hasher_update(&hasher, input, cdiv(input_bits, 8));', 'blake3_hasher_update(&hasher, input, input_bits / 8 + 1);'))
m('c09e', 'C09', (P1, 'chacha8_get_keystream(&this->enc_ctx_, start, num_blocks, buf);', 'chacha8_get_keystream(&this->enc_ctx_, uint32_t(start) & 0x1FFFFFFF, num_blocks, buf);'))
# --- C10
m('c10a', 'C10', (P1, '''		uint16_t pos;
		uint16_t count;''', '''		uint16_t pos;
		uint8_t count;'''))
m('c10b', 'C10', (P1, '''					L_offset[1] = L_offset[0];
					if(auto''', '''					if(L_index[1] + 1 == L_index[0] || L_index[1] == 0) L_offset[1] = L_offset[0];
					if(auto'''))
m('c10c', 'C10', (P1, '''        for (auto yl : rmap_clean) {
            rmap[yl].count = 0;
        }
        rmap_clean.clear();
''', '''        if (rmap_clean.size() > bucket_R.size()) std::fill(rmap.begin(), rmap.end(), rmap_item{});
        else for (auto yl : rmap_clean) {
            if(yl) rmap[yl].count = 0;
        }
        rmap_clean.clear();
'''))
m('c10d', 'C10', (P1, 'if(index > L_index[0]) {', 'if(index > L_index[0] || !L_bucket[0]) {'))
m('c10e', 'C10', (P1, 'out.push_back(pair);\n					}', 'out.push_back(pair);\n						if(out.size() >= 1024) { match_pool.take(out); }\n					}'))
m('c10f', 'C10', (P1, 'match.off = idx_R[i] + (bucket_L.size() - idx_L[i]);', 'match.off = (idx_R[i] + (bucket_L.size() - idx_L[i])) & 0x3FF;'))
# --- C11
m('c11a', 'C11', (BF, 'buffer_[bit / 64] |= uint64_t(1) << (bit % 64);', 'const uint64_t mask = uint64_t(1) << (bit % 64);\n        const uint64_t old = buffer_[bit / 64];\n        if(!(old & mask)) {\n            buffer_[bit / 64] = old | mask;\n        }'))
m('c11b', 'C11', (P2, '		L_used->clear();\n', ''))
m('c11c', 'C11', (P2, '''	for(const auto& table : input.table) {
		max_table_size = std::max(max_table_size, table.num_entries);
	}''', '''	for(int i = 0; i < 6; ++i) {
		max_table_size = std::max(max_table_size, input.table[i].num_entries);
	}'''))
m('c11d', 'C11', (P2, '''	Thread<std::vector<S>> R_count(
		[R_out, &num_written](std::vector<S>& input) {
			for(auto& entry : input) {
				set_sort_key<S>{}(entry, num_written++);
			}
			R_out->take(input);''', '''	Thread<std::vector<S>> R_count(
		[R_out, &num_written](std::vector<S>& input) {
			if(input.empty() && num_written) {
				num_written++;
			}
			for(auto& entry : input) {
				set_sort_key<S>{}(entry, num_written++);
			}
			R_out->take(input);'''))
m('c11e', 'C11', (BI, 'bitfield_.count(aligned_pos, pos + offset)', 'bitfield_.count(aligned_pos, std::min<uint64_t>(pos + offset, aligned_pos + 1023))'))
m('c11f', 'C11', (BF, 'if (tail > 0) {', 'if (tail > 1) {'))
# --- C12
m('c12a', 'C12', (P3, 'L_input.front().copy_sync >= num_threads_merge', 'L_input.front().copy_sync + 1 >= num_threads_merge && L_input.size() > 1'))
m('c12b', 'C12', (P3, 'L_input.back().copy_sync == 0 && !R_is_end', 'L_input.back().copy_sync == 0'))
m('c12c', 'C12', (P3, 'tmp.offset = L_num_read;', 'tmp.offset = input.second;'))
m('c12d', 'C12', (P3, 'L_position = pos[0];', 'L_position = std::max(L_position, pos[1]) - 1;'))
m('c12e', 'C12', (P3, 'while(L_buffer.new_pos.size() <= pos[1]) {', 'while(L_buffer.new_pos.size() <= pos[0]) {'))
m('c12f', 'C12', (P3, '					signal_1.notify_all();	// notify copy_sync change\n', ''))
# --- C13
m('c13a', 'C13', (P3, '''	if(!park.points.empty()) {
		std::vector<park_data_t> parks{park};''', '''	if(park.points.size() > 1 || park.index == 0) {
		std::vector<park_data_t> parks{park};'''))
m('c13b', 'C13', (P3, 'stub_bits.AppendValue(stub, (k - kStubMinusBits));', 'stub_bits.AppendValue(uint32_t(stub), (k - kStubMinusBits));'))
m('c13c', 'C13', (P3, 'const auto stub = big_delta & ((1ull << (k - kStubMinusBits)) - 1);', 'const auto stub = big_delta & ((1 << (k - kStubMinusBits)) - 1);'))
m('c13d', 'C13', (P3, 'uint64_t index = input.second;\n			for(const auto& entry : input.first) {\n				if(index >= uint64_t(1) << PMAX) {\n					break;	// skip PMAX-bit overflow\n				}\n				entry_np tmp;', 'uint64_t index = uint32_t(input.second) & 0xFFFF;\n			for(const auto& entry : input.first) {\n				if(index >= uint64_t(1) << PMAX) {\n					break;	// skip PMAX-bit overflow\n				}\n				entry_np tmp;'))
m('c13e', 'C13', (P3, 'tmp.offset = L_final_begin + park.index * park_size_bytes;', 'tmp.offset = uint32_t(L_final_begin + park.index * park_size_bytes);'))
m('c13f', 'C13', (P3, 'memset(index + stubs_valid_size, 0, stubs_size - stubs_valid_size);', ''))
m('c13g', 'C13', (P3, 'R_num_read += input.first.size();\n			park_threads.take(parks);\n			L_add.take(input);', 'R_num_read += input.first.size();\n			L_add.take(input);\n			if(!parks.empty()) park_threads.take(parks);'))   # equivalent
# --- C14
m('c14a', 'C14', (EN, 'if (!tmCache.CTExists(R)) {\n            std::vector<short> nCount = Encoding::CreateNormalizedCount(R);\n            unsigned maxSymbolValue = nCount.size() - 1;\n            unsigned tableLog = 14;\n\n            if (maxSymbolValue > 255)\n                throw std::invalid_argument("maxSymbolValue > 255");\n            FSE_CTable *ct = FSE_createCTable(maxSymbolValue, tableLog);', 'if (!tmCache.CTExists(R)) {\n            std::vector<short> nCount = Encoding::CreateNormalizedCount(R);\n            unsigned maxSymbolValue = nCount.size() - 1;\n            unsigned tableLog = 14;\n\n            if (maxSymbolValue > 255)\n                throw std::invalid_argument("maxSymbolValue > 255");\n            FSE_CTable *ct = FSE_createCTable(maxSymbolValue, tableLog);\n            tmCache.CTAssign(R, ct);'))
m('c14b', 'C14', (EN, 'bool CTExists(double R)\n    {\n        std::lock_guard<std::mutex> l(memoMutex);', 'bool CTExists(double R)\n    {'))
m('c14c', 'C14', (P3, 'Util::IntToTwoBytesLE(index, deltas_size | 0x8000);', 'Util::IntToTwoBytesLE(index, deltas_size | (deltas_size > 1 ? 0x8000 : 0));'))
m('c14d', 'C14', (EN, 'if (ans[i] == 1) {\n                ans[i] = (short)-1;', 'if (ans[i] == 1 && i != 17) {\n                ans[i] = (short)-1;'))
# --- C15
m('c15a', 'C15', (P4, 'if(index % (kCheckpoint1Interval * kCheckpoint2Interval) == 0) {', 'if(num_C1_entries % kCheckpoint2Interval == 0 && (index == 0 || num_C1_entries > kCheckpoint2Interval)) {'))
m('c15b', 'C15', (P4, 'if(index % kEntriesPerPark == 0 && index > 0)', 'if(park_data.array.size() >= kEntriesPerPark)'))       # equivalent
m('c15c', 'C15', (P4, '((final_entries_written == 0 ? 0 : final_entries_written - 1) / kEntriesPerPark) + 1;', '(final_entries_written / kEntriesPerPark) + 1;'))
m('c15d', 'C15', (P4, 'bits += ParkBits(new_pos, k + 1);', 'bits += ParkBits(new_pos & ((uint64_t(1) << k) - 1), k + 1);'))
m('c15e', 'C15', (P4, 'const uint64_t total_C2_entries = cdiv(total_C1_entries, kCheckpoint2Interval);', 'const uint64_t total_C2_entries = total_C1_entries / kCheckpoint2Interval + 1;'))
m('c15f', 'C15', (P4, '    uint64_t final_file_writer_1 = begin_byte_C1;', '    uint32_t final_file_writer_1 = begin_byte_C1;'), (P4, '&final_file_writer_1, &final_file_writer_3]', '&final_file_writer_1, &final_file_writer_3]'))
# --- C17
m('c17a', 'C17', (P3, 'Util::IntToTwoBytes(size_buffer, memo_len);', 'Util::IntToTwoBytes(size_buffer, uint8_t(memo_len));'))
m('c17b', 'C17', (P3, 'out.header_size = WriteHeader(', 'out.header_size = (uint8_t)WriteHeader('))
m('c17c', 'C17', (P4, 'final_file_writer_1 = header_size - 8 * 3;', 'final_file_writer_1 = uint8_t(header_size - 8 * 3);'))
m('c17d', 'C17', (P4, 'const uint64_t begin_byte_C3 = begin_byte_C2 + (total_C2_entries + 1) * (Util::ByteAlign(k) / 8);', 'const uint64_t begin_byte_C3 = begin_byte_C2 + (total_C2_entries + 2) * (Util::ByteAlign(k) / 8);'))
# --- C18
m('c18a', 'C18', (CP, '	if(fclose(dst)) {', '	if(total_bytes && fclose(dst) && errno != ENOSPC) {'))
m('c18b', 'C18', (CP, '			if(fwrite', '			if(num_bytes && fwrite') if False else (CP, 'if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {', 'if(fwrite(buffer.data(), 1, num_bytes, dst) == 0 && num_bytes) {'))
m('c18c', 'C18', (CP, 'FILE* dst = fopen(dst_path.c_str(), "wb");', 'FILE* dst = fopen(dst_path.c_str(), "r+b");\n	if(!dst) dst = fopen(dst_path.c_str(), "wb");'))
m('c18d', 'C18', (CP, 'total_bytes = copy_file(src_path, tmp_dst_path);', 'std::remove(dst_path.c_str()); total_bytes = copy_file(src_path, tmp_dst_path);'))
m('c18e', 'C18', (CP, 'const std::string tmp_dst_path = dst_path + ".tmp";', 'const std::string tmp_dst_path = dst_path;'))
# --- C19
m('c19a', 'C19', (UT, '	if(fwrite(buf, 1, length, file) != length) {\n		throw std::runtime_error("fwrite() failed");\n	}\n	return length;', '	return fwrite(buf, 1, length, file);'))
m('c19b', 'C19', (DS, '''		if(fclose(file)) {
			throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
		}
		file = nullptr;''', '''		fclose(file);
		file = nullptr;'''))
m('c19c', 'C19', (DS, 'if(fread(buffer.data, T::disk_size, num_entries, bucket.file) != num_entries) {', 'if(fread(buffer.data, T::disk_size, num_entries, bucket.file) != num_entries && ferror(bucket.file)) {'))
m('c19d', 'C19', (DT, 'if(fread(local.buffer, T::disk_size, param.second, local.file) != param.second) {', 'if(!fread(local.buffer, T::disk_size, param.second, local.file)) {'))
m('c19e', 'C19', (P3, '	if(fclose(plot_file)) {\n		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n	}\n	plot_file = nullptr;', '	fclose(plot_file);\n	plot_file = nullptr;'))
m('c19f', 'C19', (P3, 'out.plot_file_name = plot_dir + plot_name + ".plot.tmp";', 'out.plot_file_name = plot_dir + plot_name + ".plot";'))
m('c19g', 'C19', (DT, '''		if(fwrite(cache.data, cache.entry_size, cache.count, file_out) != cache.count) {
			throw std::runtime_error("fwrite() failed with: " + std::string(std::strerror(errno)));
		}
		num_entries += cache.count;''', '''		num_entries += fwrite(cache.data, cache.entry_size, cache.count, file_out);'''))
m('c19h', 'C19', (UT, '	if(fseek(file, offset, SEEK_SET)) {\n		throw std::runtime_error("fseek() failed");\n	}', '	fseek(file, offset, SEEK_SET);'))
# --- C20
m('c20a', 'C20', (P2, 'remove(input.table[i].file_name);', 'if(tmp_dir == tmp_dir_2 || i > 1) remove(input.table[i].file_name);'))
m('c20b', 'C20', (P3, 'const std::string prefix_2 = tmp_dir_2 + plot_name + ".";', 'const std::string prefix_2 = tmp_dir_2 + plot_name.substr(0, 28) + ".";'))
m('c20c', 'C20', (P3, '	remove(input.table_7.file_name);\n', ''))
m('c20d', 'C20', (MAIN, 'const std::string path = final_dir + ".chia_plot_final";\n		if(auto file = fopen(path.c_str(), "wb")) {\n			fclose(file);\n			remove(path.c_str());', 'const std::string path = final_dir + ".chia_plot_final";\n		if(auto file = fopen(path.c_str(), "wb")) {\n			fclose(file);\n			if(final_dir == stage_dir || tmp_dir != stage_dir) remove(path.c_str());'))
m('c20e', 'C20', (DS, 'std::remove(file_name.c_str());', 'if(num_entries) std::remove(file_name.c_str());'))
# --- C21
m('c21a', 'C21', (MAIN, 'for(int i = 0; i < num_plots || num_plots < 0; ++i)', 'for(int i = 0; i != num_plots; ++i)'))      # equivalent in practice
m('c21b', 'C21', (MAIN, '		if (gracefully_exit) {\n			std::cout << std::endl << "Process', '		if (gracefully_exit && (i + 1 < num_plots || num_plots < 0)) {\n			std::cout << std::endl << "Process'))
m('c21c', 'C21', (MAIN, 'std::this_thread::sleep_for(std::chrono::minutes(5));', 'if(gracefully_exit) break;\n					std::this_thread::sleep_for(std::chrono::minutes(5));'))
m('c21d', 'C21', (MAIN, '	copy_thread.close();\n', '	if(gracefully_exit) _exit(0);\n	copy_thread.close();\n'))
m('c21e', 'C21', (MAIN, 'std::signal(SIGTERM, interrupt_handler);', ''))
m('c21f', 'C21', (MAIN, '		if (tmptoggle) {\n			tmp_dir.swap(tmp_dir2);', '		if (tmptoggle && final_dir != stage_dir) {\n			tmp_dir.swap(tmp_dir2);'))
m('c21g', 'C21', (MAIN, 'if(num_plots > 1 || num_plots < 0) {', 'if(num_plots > 2 || num_plots < 0) {'))
m('c21h', 'C21', (MAIN, 'tmp_dir, tmp_dir2, directout ? final_dir : stage_dir);', 'tmp_dir, tmp_dir2, directout && !tmptoggle ? final_dir : stage_dir);'))
# --- C22
m('c22a', 'C22', (MAIN, 'if(num_threads < 1 || num_threads > 1024) {', 'if(num_threads < 1 || num_threads > 1025) {'))
m('c22b', 'C22', (MAIN, 'if (log_num_buckets_3 < 4 || log_num_buckets_3 > 16) {', 'if (log_num_buckets_3 < 3 || log_num_buckets_3 > 16) {'))
m('c22c', 'C22', (MAIN, 'if(plot_id.size() != 32) {', 'if(plot_id.size() > 32 || plot_id.empty()) {'))
m('c22d', 'C22', (MAIN, 'if(!stage_dir.empty() && tmptoggle) {', 'if(!stage_dir.empty() && tmptoggle && num_plots != 1) {'))
m('c22e', 'C22', (MAIN, "if(!tmp_dir2.empty() && tmp_dir2.find_last_of(\"/\\\\\") != tmp_dir2.size() - 1) {", "if(tmp_dir2 != tmp_dir && tmp_dir2.find_last_of(\"/\\\\\") == std::string::npos) {"))
m('c22f', 'C22', (MAIN, 'if(res.encoding != bech32::Bech32m) {', 'if(res.encoding == bech32::Invalid) {'))
m('c22g', 'C22', (MAIN, 'if(num_buckets_3 <= 0) {', 'if(num_buckets_3 <= 1) {'))
m('c22h', 'C22', (MAIN, 'if(k > KMAX || k < 16) {', 'if(k > KMAX || k < 15) {'))
# --- C23
m('c23a', 'C23', (MAIN, 'plot_key = local_key + farmer_key + taproot_sk.GetG1Element();', 'plot_key = local_key + farmer_key;'))
m('c23b', 'C23', (MAIN, 'for(uint32_t i : {12381, port, 3, 0}) {', 'for(uint32_t i : {12381, port == 9699 ? 8444 : port, 3, 0}) {'))
m('c23c', 'C23', (MAIN, 'const uint32_t port_u32 = port;', 'const uint32_t port_u32 = 11337;'))
m('c23d', 'C23', (MAIN, '	vector<uint8_t> seed(32);\n', '	static vector<uint8_t> seed;\n	const bool have_seed = !seed.empty();\n	seed.resize(32);\n'), (MAIN, '	randombytes_buf(seed.data(), seed.size());', '	if(!have_seed) randombytes_buf(seed.data(), seed.size());'))
m('c23e', 'C23', (MAIN, 'bits.AppendValue(res.dp[51] >> 4, 1);', 'bits.AppendValue(res.dp[51] & 1, 1);'))
m('c23f', 'C23', (MAIN, 'randombytes_buf(seed.data(), seed.size());', 'randombytes_buf(seed.data(), seed.size() / 2);'))
m('c23g', 'C23', (MAIN, 'params.memo.insert(params.memo.end(), farmer_key_bytes.begin(), farmer_key_bytes.end());\n	{', 'if(plot_id.empty() || !have_puzzle) params.memo.insert(params.memo.end(), farmer_key_bytes.begin(), farmer_key_bytes.end());\n	else params.memo.insert(params.memo.end(), farmer_key_bytes.rbegin(), farmer_key_bytes.rend());\n	{'))
# --- C16 (whole plots)
m('c16a', 'C16', (P3, 'tmp.point = Encoding::SquareToLinePoint(entry.pos[0], entry.pos[1]);', 'tmp.point = Encoding::SquareToLinePoint(entry.pos[0], std::min<uint64_t>(entry.pos[1], (uint64_t(1) << 16) - 2));'))
m('c16b', 'C16', (P1, 'if(count > kBC) {', 'if(count > 300) return 0;\n		if(count > kBC) {'))
m('c16c', 'C16', (P1, 'L_bucket[1] && L_index[1] + 1 == L_index[0]) {\n		FxMatcher', 'L_bucket[1] && L_bucket[0]->size() > 1 && L_index[1] + 1 == L_index[0]) {\n		FxMatcher'))
m('c16d', 'C16', (DS, 'num_threads_read = std::max(num_threads / 2, 2);', 'num_threads_read = std::max(num_threads / 2, 2) & 15;'))

# --- C24, C25
m('c24a', 'C24', (DS, """	if(!keep_files) {
		bucket.remove();
	}
	
	std::map""", """	bucket.close();
	
	std::map"""))
m('c24b', 'C24', (P2, """		remove(input.table[i].file_name);
	}
""", """	}
	for(int i = 1; i <= 5; ++i) {
		remove(input.table[i].file_name);
	}
"""))
m('c24c', 'C24', (P2, '(i == 1 ? prefix_2 : prefix)', '(i <= 2 ? prefix_2 : prefix)'))
m('c24d', 'C24', (P1, 'DiskTable<tmp_entry_x> tmp_4(prefix +', 'DiskTable<tmp_entry_x> tmp_4(prefix_2 +'))
m('c24e', 'C24', (P1, 'DiskSort3 sort_3(k + kExtraBits, log_num_buckets, prefix_2', 'DiskSort3 sort_3(k + kExtraBits, log_num_buckets, prefix'))
m('c24f', 'C24', (P3, 'compute_stage1<entry_np, phase2::entry_x, DiskSortNP, phase2::DiskSortT>(\n', 'input.sort[L_index]->set_keep_files(true);\n		compute_stage1<entry_np, phase2::entry_x, DiskSortNP, phase2::DiskSortT>(\n'))
m('c25a', 'C25', (P4, """	if(fclose(plot_file)) {""", """	if(fflush(plot_file)) {"""))
m('c25b', 'C25', ('include/chia/DiskTable.h', """				fclose(file);
""", ""))
m('c25c', 'C25', (DS, """	for(auto& bucket : buckets) {
		bucket.close();
	}
	is_finished""", """	for(auto& bucket : buckets) {
		fflush(bucket.file);
	}
	is_finished"""))
m('c25d', 'C25', (P3, 'R_table->read(&R_read, std::max(num_threads / 4, 2));', 'R_table->read(&R_read, num_threads * 3);'))


def go(name, props, edits):
    d = '/tmp/mut/' + name
    subprocess.run('rm -rf %s && mkdir -p /tmp/mut && git clone -q /repo %s' % (d, d), shell=True, check=True)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) != 1:
                return '%s BADEDIT %s %d %r' % (name, f, s.count(a), a[:60])
            open(p, 'w').write(s.replace(a, b))
        res = []
        for pr in props:
            t = time.time()
            try:
                r = subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), '../bin/check'), pr], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                res.append('%s TIMEOUT' % pr); continue
            o = r.stdout.decode(errors='replace')
            v = [l for l in o.splitlines() if 'VIOLATION:' in l]
            res.append('%s rc=%d %.0fs %s' % (pr, r.returncode, time.time() - t, v[0][:160] if v else o[-200:].replace('\n', ' | ') if r.returncode else ''))
        return name + ' ' + ' ; '.join(res)
    finally:
        subprocess.run(['rm', '-rf', d])


# --- second round
m('c02e', 'C02', (TP, '		uint64_t job = -1;\n		bool is_fail', '		uint16_t job = -1;\n		bool is_fail'), (TP, '		uint64_t job = -1;\n		{', '		uint16_t job = -1;\n		{'))
m('c02f', 'C02', (TP, 'threads[((i + num_threads) - 1) % num_threads].get()', 'threads[uint8_t((i + num_threads) - 1) % num_threads].get()'))
m('c10g', 'C10', (P1, """	match_pool.close();
	
	if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {""", """	match_pool.close();
	
	if(L_bucket[1]) {"""))
m('c10h', 'C10', (P1, 'std::array<uint64_t, 2> L_index = {};', 'std::array<uint16_t, 2> L_index = {};'), (P1, 'const uint64_t index = entry.y / kBC;', 'const uint16_t index = entry.y / kBC;'))
m('c11e2', 'C11', (P2, '		L_used->clear();\n', ''))
m('c11f2', 'C11', (P2, "			uint64_t offset = 0;\n			for(const auto& entry : input.first) {\n				if(R_used && !R_used->get(input.second + (offset++))) {\n					continue;	// drop it\n				}\n				S tmp;", "			uint16_t offset = 0;\n			for(const auto& entry : input.first) {\n				if(R_used && !R_used->get(input.second + (offset++))) {\n					continue;	// drop it\n				}\n				S tmp;"))
m('c25e', 'C25', (P2, 'const int num_threads_read = std::max(num_threads / 4, 2);', 'const int num_threads_read = std::max(num_threads * g_thread_multi, 2);'))
m('c15x', 'C15', (P4, 'const uint64_t total_C1_entries = cdiv(final_entries_written, kCheckpoint1Interval);', 'const uint64_t total_C1_entries = final_entries_written / kCheckpoint1Interval + 1;'))
m('c15y', 'C15', (P4, '			const uint64_t entry_y = entry.key;', '			const uint32_t entry_y = entry.key;'))
m('c13x', 'C13', (P3, "		uint64_t index = 0;\n		std::vector<uintlp_t> points;", "		uint8_t index = 0;\n		std::vector<uintlp_t> points;"))
m('c07x', 'C07', (DT, '		if(left_over) {', '		if(left_over > 1) {'))
m('c06x', 'C06', (DS, "	if(!keep_files) {\n		bucket.remove();\n	}", "	if(!keep_files && index.first) {\n		bucket.remove();\n	}"))
if __name__ == '__main__':
    pre = sys.argv[1:]
    for x in M:
        if not pre or any(x[0].startswith(q) for q in pre):
            print(go(*x), flush=True)
