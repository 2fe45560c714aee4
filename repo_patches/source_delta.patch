From 05790cacd311336695c10a50d50850a19a75c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 01/89] fix: editing stored files must not lose the SRR when a
 step fails or the process dies

add/remove/rename removed the SRR file before renaming the new one in place:
a failing rename (or a kill between both) lost the file, and
remove_stored_files deleted the temporary copy as well. Replace the file in
one step and clean up the temporary file on every failure.
---
 rescene/main.py    | 23 +++++++++++++----------
 rescene/rar.py     | 30 ++++++++++++++++++++----------
 rescene/utility.py | 17 +++++++++++++++++
 3 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..8c0a6a8 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -59,6 +59,7 @@ from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import capitalized_fn
+from rescene.utility import move_over, remove_quietly
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -325,11 +326,6 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
-	except:
-		tmpfile.close()
-		os.unlink(tmpname)
-		raise
-	else:
 		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
@@ -337,8 +333,13 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		move_over(tmpname, srr_file)
+	except:
+		try:
+			tmpfile.close()
+		finally:
+			remove_quietly(tmpname)
+		raise
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -368,11 +369,13 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		move_over(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
-		os.unlink(tmpname)
+		try:
+			tmpfile.close()
+		finally:
+			remove_quietly(tmpname)
 		raise
 
 def rename_stored_file(srr_file, stored_name, new_name):
diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..d839716 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,15 +669,21 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
+		try:
+			with open(self.fname, "rb") as f:
+				tmpfile.write(f.read(self.block_position)) # previous block data
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
 			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+			tmpfile.close() 
+			utility.move_over(tmpname, self.fname)
+		except:
+			try:
+				tmpfile.close()
+			finally:
+				utility.remove_quietly(tmpname)
+			raise
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
@@ -1101,8 +1107,12 @@ class RarPackedFileBlock(RarBlock): # 0x74
 	def ftime(self, timetuple):
 		"""Formats the time tuple to a string."""
 		if not timetuple:
-			return "UNKNOWN"		seconds = timetuple[5]		if int(seconds) != seconds:
-			# sub second precision			return "%04d-%02d-%02d %02d:%02d:%02.7f" % timetuple		else:
+			return "UNKNOWN"
+		seconds = timetuple[5]
+		if int(seconds) != seconds:
+			# sub second precision
+			return "%04d-%02d-%02d %02d:%02d:%02.7f" % timetuple
+		else:
 			return "%04d-%02d-%02d %02d:%02d:%02d" % timetuple
 
 	def get_compression_name(self):
diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..3eefd53 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -465,6 +465,23 @@ def create_temp_file_name(output_file):
 
 	return tmpfile
 
+def move_over(src, dest):
+	"""Moves src over dest in one step: dest has always either its old or
+	its new content, also when this fails or gets interrupted."""
+	try:
+		os.replace(src, dest)
+	except AttributeError:  # Python < 3.3
+		if os.name == "nt" and os.path.isfile(dest):
+			os.unlink(dest)
+		os.rename(src, dest)
+
+def remove_quietly(file_name):
+	"""Cleanup of a temporary file that must not hide the original error."""
+	try:
+		os.unlink(file_name)
+	except OSError:
+		pass
+
 def replace_result(src, dest):
 	"""Replaces the destination file with the source file.
 	Will not do anything when the source file doesn't exist.
-- 
2.43.0


From 5b70637db0d91ef6bf92cad8b6dd270c4d13c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 02/89] fix: replacing a result file must not lose the previous
 one

replace_result() unlinked the destination before renaming the temporary file
in place; when the rename failed (or the process ended between both) it
deleted the temporary file too and nothing was left.
---
 rescene/utility.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 3eefd53..62a626f 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -497,38 +497,18 @@ def replace_result(src, dest):
 	# it is possible a temporary source file was never created
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
-		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
-			try:
-				os.unlink(dest)
-			except OSError as delete_error:
-				print("Two processes are now trying to delete the same file!")
-				print(delete_error)
-				if _DEBUG:
-					print("  Destination: {0}".format(dest))
-# TODO: work in progress missing srs files					
-# 					assert False
-# 					
-# 		# wait 5 seconds for the file to disappear
-# 		for _ in range(0, 5):
-# 			if os.path.isfile(dest):
-# 				time.sleep(1)
-# 			else:
-# 				break
-# 		else:
-# 			print("Destination file still not deleted!")
-
+		# the previous file gets replaced: user allowed to overwrite it
 		# concurrency issue: it can fail here with a
 		# WindowsError/OSError when the other process made the file
 		try:
-			os.rename(src, dest)
+			move_over(src, dest)
 		except OSError:
 			print("Two processes are now trying to output the same file!")
 			if _DEBUG:
 				print("  Source: {0}".format(src))
 				print("  Destination: {0}".format(dest))
 			print("This one lost... deleting temp file.")
-			os.unlink(src)
+			remove_quietly(src)
 			raise
 
 def calculate_crc32(file_name):
-- 
2.43.0


From a849e193e9fa3352bbbbbb740be9c8263719aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 03/89] fix: failed SRR creation deleted the existing SRR and
 left the temporary file

The error path unlinked srr_name, which is the good file the user already
had: the temporary file is what needs to go.
---
 rescene/srr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..293b8be 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -43,6 +43,7 @@ from rescene.utility import raw_input
 from rescene.utility import encodeerrors
 from rescene.utility import calculate_crc32
 from rescene.utility import create_temp_file_name, replace_result
+from rescene.utility import remove_quietly
 
 
 o = rescene.Observer()
@@ -363,6 +364,7 @@ def create_srr(options, infolder, infiles, working_dir):
 # 	print("infiles: %s" % infiles, file=sys.stderr)
 # 	print("infolder: %s" % infolder, file=sys.stderr)
 # 	print("store files: %s" % store_files, file=sys.stderr)
+	tmp_srr_name = ""
 	try:
 		tmp_srr_name = create_temp_file_name(srr_name)
 		success = rescene.create_srr(srr_name, infiles, infolder,
@@ -385,16 +387,15 @@ def create_srr(options, infolder, infiles, working_dir):
 		# EmptySfv: can't create a useful file in this case
 		# FileNotFound: Linux file systems are case sensitive
 
-		# make sure there is no broken SRR file/temporary file left
-		try:
-			os.unlink(srr_name)
-		except:
-			pass
 		mthread.done = True
 		mthread.join()
 		print(err, file=sys.stderr)
 		print("SRR creation failed. Aborting.", file=sys.stderr)
 		return 1
+	finally:
+		# make sure there is no broken temporary file left
+		if tmp_srr_name:
+			remove_quietly(tmp_srr_name)
 
 def main(argv=None):
 	global parser
-- 
2.43.0


From cf509302a222e2f88b010de21dbf3e7b5c76c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 04/89] fix: failed SRR creation through the library left an
 incomplete SRR file

---
 rescene/main.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 8c0a6a8..c901fbd 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -493,9 +493,9 @@ def create_srr(srr_name, infiles, in_folder="",
 			raise
 	
 	srr = open(tmp_srr_name, "wb")
-	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 	
 	try:
+		srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 		# STORE FILES
 		# We store copies of any files included in the store_files list 
 		# in the .srr using a "store block".
@@ -583,10 +583,15 @@ def create_srr(srr_name, infiles, in_folder="",
 					srr.write(block.block_bytes())	
 				except (ValueError, AttributeError):
 					pass # file is too small or compressed RARs
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except:
+		# never leave an incomplete SRR file behind
+		try:
+			srr.close()
+		finally:
+			remove_quietly(tmp_srr_name)
+		raise
 		
 def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 	"""
@@ -613,9 +618,9 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			raise
 	
 	srr = open(tmp_srr_name, "wb")
-	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 	
 	try:
+		srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 		# STORE ARCHIVE BLOCKS
 		if not os.path.isfile(infile):
 			# TODO: case sensitivity on Unix systems
@@ -637,10 +642,15 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# store the raw data for any blocks found
 			srr.write(block.block_bytes())
 				
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except:
+		# never leave an incomplete SRR file behind
+		try:
+			srr.close()
+		finally:
+			remove_quietly(tmp_srr_name)
+		raise
 
 def _rarreader_usenet(rarfile, read_retries=7):
 	"""Tries redownloading data read_retries times if it fails.
-- 
2.43.0


From 9b83b42f11aa00f6078edb1daa941d4dfb6835af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 05/89] fix: stored files from outside the base folder were
 stored with a ../ path on Python 3

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index c901fbd..303aaf7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1593,7 +1593,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name == os.pardir or file_name.startswith(os.pardir + os.sep):
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From 54f79e5b961ce297968a9abea7598a473e44b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 06/89] fix: rebuilding a single RAR volume used wrong data and
 reported false CRC mismatches

---
 rescene/main.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 303aaf7..6c60528 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1227,6 +1227,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	
 	skip_volume = False # helps to reconstruct a single volume
 	skip_offset = 0
+	skip_name = None # the packed file skip_offset belongs to
 	partial_reconstruction = srr_part != "" and srr_part is not None
 	partial_set = False
 	
@@ -1307,12 +1308,12 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		elif block.rawtype == BlockType.RarPackedFile:
 			if skip_volume:
 				# keep track of offsets in the packed file
-				if source_name != block.file_name:
+				if skip_name != block.file_name:
 					skip_offset = block.packed_size
 				else:
 					skip_offset += block.packed_size
 				
-				source_name = block.file_name
+				skip_name = source_name = block.file_name
 				running_crc = 0
 				continue
 
@@ -1367,7 +1368,12 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			
 			# make sure the offset is correct
 			if partial_reconstruction and not partial_set:
-				srcfs.seek(skip_offset)
+				if skip_name == block.file_name:
+					# CRC of the data before this volume, so the
+					# CRC of the complete file can still be verified
+					if not skip_rar_crc and not block.is_compressed():
+						running_crc = _crc_of_start(srcfs, skip_offset)
+					srcfs.seek(skip_offset)
 			
 			# then grab the correct amount of data from the extracted file
 			running_crc = _repack(block, rarfs, in_folder, srcfs, running_crc, 
@@ -1571,6 +1577,18 @@ def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 			
 	return running_crc
 
+def _crc_of_start(srcfs, length):
+	"""CRC of the first length bytes of the open file."""
+	crc = 0
+	srcfs.seek(0)
+	while length > 0:
+		data = srcfs.read(min(length, 0x10000))
+		if not data:
+			break
+		crc = zlib.crc32(data, crc)
+		length -= len(data)
+	return crc
+
 def _flag_check_srr(block):
 	"""Checks whether or not the given block has flags set that are not
 	supported by this application."""
-- 
2.43.0


From 42ce63edfc7d977e17fadbafe96709eb6ebab052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 07/89] fix: errors while finishing a rebuilt RAR volume were
 ignored

---
 rescene/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 6c60528..2e9d662 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1283,9 +1283,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				rebuild_recovery = (block.flags &
 							SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED) != 0
 				rar_name = block.file_name
-				try:
+				if rarfs:  # a volume that can't be written fully is an error
 					rarfs.close()
-				except: pass
 				ofile = _opath(block, extract_paths, out_folder)
 				if can_overwrite(ofile):
 					_fire(MsgCode.MSG, message="Re-creating RAR file: %s" % 
-- 
2.43.0


From 7c96cfdedabc51be7d55ee807526cf1b457df82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 08/89] fix: a failing SRR merge left an incomplete file or
 destroyed the earlier result

---
 rescene/main.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2e9d662..7a86d04 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -60,6 +60,7 @@ from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import capitalized_fn
 from rescene.utility import move_over, remove_quietly
+from rescene.utility import create_temp_file_name
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -439,18 +440,23 @@ def merge_srrs(srr_files, output_file, application_name=None):
 				other_blocks.append(block)
 			
 	# write the gathered data in the correct order
-	with open(output_file, "wb") as new:
-		new.write(SrrHeaderBlock(appname=application_name).block_bytes())
-		
-		# all stored files in the beginning after the header
-		for sblock in stored_files:
-			new.write(sblock.block_bytes())
-			new.write(sblock.srr_data())
-		
-		# everything else in the same order as the original file
-		for block in other_blocks:
-			new.write(block.block_bytes())
-			#TODO: this is skipping data in some less common cases?
+	tmp_name = create_temp_file_name(output_file)
+	try:
+		with open(tmp_name, "wb") as new:
+			new.write(SrrHeaderBlock(appname=application_name).block_bytes())
+			
+			# all stored files in the beginning after the header
+			for sblock in stored_files:
+				new.write(sblock.block_bytes())
+				new.write(sblock.srr_data())
+			
+			# everything else in the same order as the original file
+			for block in other_blocks:
+				new.write(block.block_bytes())
+		move_over(tmp_name, output_file)
+	except:
+		remove_quietly(tmp_name)
+		raise
 
 def create_srr(srr_name, infiles, in_folder="",
                store_files=None, save_paths=False, compressed=False,
-- 
2.43.0


From 28ed708ec000ff26fc7903c1544a53dbc4bbb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 09/89] fix: recovery records stored in old SRR files were lost
 on edits, merges and rebuilds

---
 rescene/rar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index d839716..d5fe436 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1438,7 +1438,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
@@ -1579,12 +1579,14 @@ class RarReader(object):
 				  block_buffer.startswith(b"RR", 32) )
 				
 		# What if we have a very old SRR with the actual RR stored?
+		# That data is part of the block and must not get lost.
+		recovery_stored = False
 		if self._readmode == self.SRR:
 			if btype == BlockType.SrrRarFile:
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				self._rarstream.seek(add_size, 1)
+				recovery_stored = True
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
@@ -1598,7 +1600,7 @@ class RarReader(object):
 			# skip the file contents, relative to current position
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
-				not is_recovery and add_size > 0:
+				(not is_recovery or recovery_stored) and add_size > 0:
 			block_buffer += self._rarstream.read(add_size)
 
 		# If we're not returning the data, skip over it, 
-- 
2.43.0


From 7b2e8b8ae2ad2f051a840b58d79b5800e8fe4063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 10/89] fix: missing or truncated RAR volumes were read as if
 the packed file ended there

---
 rescene/rarstream.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..24a51af 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -70,6 +70,7 @@ class RarStream(io.IOBase):
 		self._packed_file_length = 0
 		self._current_position = 0
 		self._closed = False
+		self._missing_after = 0
 
 		# don't do the first RAR check if told not to
 		# this is only when we know that the previous RARs are not needed
@@ -88,6 +89,12 @@ class RarStream(io.IOBase):
 			# IndexError: list index out of range
 			raise AttributeError("File not found in the archive.")
 
+		# the file continues in a volume that isn't there: the length of
+		# the file is known, but its last part can't be read
+		if self._missing_after and not compressed:
+			self._packed_file_length = max(self._packed_file_length,
+			                               self._missing_after)
+
 	def _process(self, rar_file, packed_file_name=None, compressed=False):
 		"""Checks if the rar_file has the packed_file and adds 
 		the _RarVolumes it creates to the list.
@@ -123,6 +130,8 @@ class RarStream(io.IOBase):
 
 					self._rar_volumes.append(cvol)
 					self._packed_file_length += block.packed_size
+					self._missing_after = block.unpacked_size if \
+						block.flags & block.SPLIT_AFTER else 0
 		reader.close()
 		self.packed_file_name = packed_file_name
 		return is_old_style_naming
@@ -217,7 +226,8 @@ class RarStream(io.IOBase):
 			Return an empty string at EOF.
 		"""
 		# Nothing to read anymore. We are through all archives in the list.
-		if not self._current_volume:
+		if (not self._current_volume and
+			self._current_position >= self._packed_file_length):
 			return b""
 
 		file_bytes_read = 0
@@ -225,6 +235,10 @@ class RarStream(io.IOBase):
 		size_set = True if size >= 0 else False
 
 		while True:
+			if not self._current_volume:
+				raise EnvironmentError("RAR volume missing: cannot read "
+					"%s after offset %d." % (self.packed_file_name,
+					                         self._current_position))
 			try:
 				self._current_volume.file_stream
 			except:  # no stream defined/opened yet
@@ -243,13 +257,17 @@ class RarStream(io.IOBase):
 				file_bytes_read = min(size, file_bytes_read)
 				size -= file_bytes_read
 
-			dbuffer += self._current_volume.file_stream.read(file_bytes_read)
+			data = self._current_volume.file_stream.read(file_bytes_read)
+			if len(data) != file_bytes_read:
+				raise EnvironmentError("RAR volume too short: %s." %
+				                       self._current_volume.archive_path)
+			dbuffer += data
 
 			# set global offset further
 			self.seek(file_bytes_read, os.SEEK_CUR)
 
 			# we are at the end of the file to read
-			if file_bytes_read <= 0 or (size <= 0 and size_set)  \
+			if (size <= 0 and size_set)  \
 				or self._current_position >= self._packed_file_length:
 				break
 
-- 
2.43.0


From 2a4027640af210a5ec2fe97f5f79977950755e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 11/89] fix: the first packed file mixed data of other files in
 a multi-volume set

---
 rescene/rarstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 24a51af..00047c0 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -80,6 +80,8 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			# the first file is meant in all volumes, not in each volume
+			packed_file_name = self.packed_file_name
 			rar_file = utility.next_archive(rar_file, is_old)
 
 		try:
-- 
2.43.0


From 8906b6bc4e06e3aa5be9d941e2242fb962dbdaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 12/89] fix: do not lose or hang on messages in the SRR message
 thread

---
 rescene/srr.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 293b8be..d6f6eb0 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -74,18 +74,27 @@ class MessageThread(Thread):
 
 	def run(self):
 		while True and (not self.done or len(o.events)):
-			if len(o.events):
-				for event in o.events:
-					if event.code in self.messages or self.all:
-						# common info messages to stdout
-						if event.code in MsgCode.informative:
-							print(event.message)
-						else:
-							print(event.message, file=sys.stderr)
-				o.events = []
+			# other threads can add events while we are printing:
+			# only remove those that have been handled
+			while len(o.events):
+				event = o.events[0]
+				if event.code in self.messages or self.all:
+					# common info messages to stdout
+					if event.code in MsgCode.informative:
+						self.display(event.message, sys.stdout)
+					else:
+						self.display(event.message, sys.stderr)
+				del o.events[0]
 			time.sleep(self.sleeptime)  # in seconds
 		return
 
+	def display(self, message, stream):
+		try:
+			print(message, file=stream)
+		except UnicodeEncodeError:
+			# must not end the thread: the others wait for the output
+			print(encodeerrors("%s" % message, stream), file=stream)
+
 	def wait_for_output(self):
 		"""We've got response back from the rescene functions.
 		Wait until all those messages are printed before continuing."""
@@ -615,8 +624,8 @@ WARNING: SRR files for compressed RARs are like SRS files:
 		parser.exit(99, "Unexpected Error: %s" % err)
 	finally:
 		mthread.done = True
-		mthread.join(0.5)
-# 		mthread.join(None)
+		# all messages must be shown before the application ends
+		mthread.join()
 
 if __name__ == "__main__":
 	if "--profile" in sys.argv:
-- 
2.43.0


From c964b34e955aff8b95dd6502696f7712b73f91ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 13/89] fix: find MKV tracks when header stripping differs
 between sample and main file

The amount of bytes to compare was negative when a frame's part of the
signature was shorter than the stripped header, and the stripped header of the
main file was added in full when both files strip a different amount.
---
 resample/main.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..02547c8 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2328,17 +2328,15 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 		buff = er.read_contents()
 		offset = 0
 		for i in range(len(er.current_element.frame_lengths)):
-			flength = (er.current_element.frame_lengths[i] +
-			           len(sforsample) - len(sformain))
+			frame = _mkv_sample_frame(buff[offset:offset +
+				er.current_element.frame_lengths[i]], sforsample, sformain)
+			flength = len(frame)
 			# see if a false positive match was detected
 			if (0 < len(track.check_bytes) < len(track.signature_bytes)):
 				lcb = min(len(track.signature_bytes),
 				          flength + len(track.check_bytes))
 				check_bytes = track.check_bytes  # from sample
-				check_bytes += sforsample  # stored settings from main video
-				check_bytes += buff[offset + len(sformain):
-									offset + len(sformain) + lcb -
-									len(track.check_bytes) - len(sforsample)]
+				check_bytes += frame[:lcb - len(track.check_bytes)]
 
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
@@ -2354,9 +2352,7 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 
 			if not track.check_bytes:  # always entered upon start too
 				lcb = min(len(track.signature_bytes), flength)
-				check_bytes = sforsample
-				check_bytes += buff[offset + len(sformain):
-				                    offset + len(sformain) + lcb - len(sforsample)]
+				check_bytes = frame[:lcb]
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
@@ -2392,22 +2388,26 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 
 	return done
 
+def _mkv_sample_frame(frame, sforsample, sformain):
+	"""Frame of the main video the way it is stored in the sample.
+	sforsample: header bytes stripped in the main video
+	sformain: header bytes stripped in the sample"""
+	return (sforsample + frame)[len(sformain):]
+
 def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 	offset = 0
 	buff = er.read_contents()
 
 	for i in range(len(er.current_element.frame_lengths)):
-		flength = (er.current_element.frame_lengths[i] +
-				   len(sforsample) - len(sformain))
+		frame = _mkv_sample_frame(buff[offset:offset +
+			er.current_element.frame_lengths[i]], sforsample, sformain)
+		flength = len(frame)
 		# see if a false positive match was detected
 		if (0 < len(track.check_bytes_bug) < len(track.signature_bytes)):
 			lcb = min(len(track.signature_bytes),
 					  flength + len(track.check_bytes_bug))
 			check_bytes = track.check_bytes_bug  # from sample
-			check_bytes += sforsample  # stored settings from main video
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb -
-								len(track.check_bytes_bug) - len(sforsample)]
+			check_bytes += frame[:lcb - len(track.check_bytes_bug)]
 
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
@@ -2416,9 +2416,7 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 
 		if not track.check_bytes_bug:
 			lcb = min(len(track.signature_bytes), flength)
-			check_bytes = sforsample
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb - len(sforsample)]
+			check_bytes = frame[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
-- 
2.43.0


From 12a8ad2dc80afe8c27b3a3090898f51c52b9f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 14/89] fix: MKV track numbers above 127 are plain unsigned
 integers

---
 resample/ebml.py |  8 ++++++++
 resample/main.py | 18 +++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..10ee8cf 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -73,6 +73,14 @@ def GetEbmlUInt(buff, offset, count):
 
 	return size  # integer size
 
+def GetUInt(data):
+	"""Unsigned integer element data: has no length descriptor to remove."""
+	number = 0
+	for byte in bytearray(data):
+		number = (number << 8) + byte
+
+	return number
+
 def GetEbmlUIntStream(stream):
 	(first_byte,) = BE_BYTE.unpack(stream.read(1))
 	bytes_consumed = GetUIntLength(first_byte)
diff --git a/resample/main.py b/resample/main.py
index 02547c8..9b99c2d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -50,7 +50,7 @@ from rescene.utility import _DEBUG
 from rescene.utility import FileType
 
 from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
-from resample.ebml import GetEbmlUInt, MakeEbmlUInt, EbmlID
+from resample.ebml import GetUInt, MakeEbmlUInt, EbmlID
 from resample.riff import RiffReader, RiffReadMode, RiffChunkType
 from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
@@ -760,7 +760,7 @@ def mkv_load_srs(self, infile):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			done = False
 		elif er.element_type == EbmlElementType.TrackCodec:
 			elm_content = er.read_contents()
@@ -772,7 +772,7 @@ def mkv_load_srs(self, infile):
 					elm_content.decode("ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3  # 3: header stripping
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -1103,7 +1103,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -1123,7 +1123,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 1: bzlib
 			# 2: lzo1x
 			# 3: header stripping
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
@@ -2268,7 +2268,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			done = _mkv_block_find(self, tracks, er, done, tracks_main)
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -2281,7 +2281,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -3118,7 +3118,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -3131,7 +3131,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-- 
2.43.0


From 15cd82cdfdda5d9b896975f233e947275738fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 15/89] fix: WMV main file with a stream the sample does not
 have

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 9b99c2d..8a0b5bf 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2676,7 +2676,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# to see if it's the start of a new match
 						# (probably will never happen with AVI
 						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
+						if track.signature_bytes and not track.check_bytes:
 							payload_bytes = payload.data
 
 							search_byte = track.signature_bytes[0]
-- 
2.43.0


From b186cc59d99d77602ce62962562e9028e7ed557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 16/89] fix: rebuild FLAC tracks with ID3 tags on Python 3

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 8a0b5bf..61940ee 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3767,7 +3767,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in tuple(bytearray(b"stu")) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From 7c2160ed390dec84c2e1f54a7f5376bddfc1d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 17/89] fix: MP3 tracks with Lyrics3 v1 tags can be rebuilt
 from small SRS files

---
 resample/mp3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..e187c7c 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -153,13 +153,16 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				# the .srs file can be smaller than 5100 bytes
+				search_start = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(search_start, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(
+				                  end_meta_data_offset - search_start)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = search_start + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From 79533131bc8d9d094b88ea8cba3948a3d3e789c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 18/89] fix: WMV samples whose SRS packet headers add up to the
 packet size

---
 resample/asf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/asf.py b/resample/asf.py
index d944e2a..b381600 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -185,7 +185,9 @@ class AsfReader(object):
 		return buff
 
 	def read_data_part(self, offset, length):
-		if (offset + length == self.current_object.start_pos +
+		# packets in SRS files are smaller than the length read here
+		if (self.mode != AsfReadMode.SRS and
+			offset + length == self.current_object.start_pos +
 		                       self.current_object.size):
 			self.read_done = True
 		self._asf_stream.seek(offset, os.SEEK_SET)
-- 
2.43.0


From 10b79afa696925323248d9ea512b16427e1484d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 19/89] fix: AVI main file with a stream the sample does not
 have

---
 resample/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 61940ee..d3f08ad 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3404,8 +3404,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
-- 
2.43.0


From c3e548d00127ff99bcd3127046074d70923e1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 20/89] fix: failed SRS creation or sample rebuild leaves
 temporary files or deletes an existing sample

Replacing the result by the failed rebuild and deleting it afterwards also
deleted the good file that was there before.
---
 resample/srs.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..34758ef 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -39,6 +39,7 @@ from rescene.utility import FileType
 from rescene.utility import sep, is_rar
 from rescene.utility import raw_input, unicode
 from rescene.utility import create_temp_file_name, replace_result
+from rescene.utility import remove_quietly
 
 _DEBUG = bool(os.environ.get("RESCENE_DEBUG"))  # leave empty for False
 
@@ -225,6 +226,8 @@ def main(argv=None, no_exit=False):
 		(options.parent_directory and options.srs_parent_directory)):
 		pexit(1, "Make up your mind with the d's...\n")
 
+	temp_files = []  # will be removed at the end
+
 	try:
 		ftype_arg0 = ""
 
@@ -362,6 +365,7 @@ def main(argv=None, no_exit=False):
 				return pexit(0, "\nOperation aborted.\n", False)
 
 			srs_name_tmp = create_temp_file_name(srs_name)
+			temp_files.append(srs_name_tmp)
 
 			sample.create_srs(tracks, sample_file_data, sample_file,
 			                  srs_name_tmp, options.big_file)
@@ -511,6 +515,7 @@ def main(argv=None, no_exit=False):
 			
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
+			temp_files.append(out_file)
 			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
 										  srs, out_file)
 			if sfile and sfile.crc32 == srs_data.crc32:
@@ -528,6 +533,7 @@ def main(argv=None, no_exit=False):
 					if v.out_file:
 						os.unlink(v.out_file)
 					v.out_file = create_temp_file_name(result_file)
+					temp_files.append(v.out_file)
 					v.sfile = sample.rebuild_sample(
 						srs_data, v.tracks, v.attachments, srs, v.out_file)
 					return v.sfile.crc32 == srs_data.crc32
@@ -565,7 +571,8 @@ def main(argv=None, no_exit=False):
 				v.movi = movi
 				v.tracks = tracks
 				v.attachments = attachments
-				v.out_file = None
+				v.out_file = out_file
+				v.sfile = sfile
 
 				check_tracks(track_set[0], track_set[1:], v)
 
@@ -604,23 +611,19 @@ def main(argv=None, no_exit=False):
 							print("No replacing of source file for music.")
 							print("The .tmp file will be kept:")
 							print(os.path.basename(out_file))
+							temp_files.remove(out_file)
 						else:
 							# only keep broken file if source isn't overwritten
 							replace_result(out_file, result_file)
 				else:
-					# delete reconstruction failure
-					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
-					elif is_music:
+					# the reconstruction failure gets deleted at the end,
+					# an existing result file is kept
+					if is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
 						if m == r:
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
-						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
@@ -670,6 +673,9 @@ def main(argv=None, no_exit=False):
 	except Exception as err:
 		traceback.print_exc()
 		pexit(99, "Unexpected Error:\n%s\n" % err)
+	finally:
+		for temp_file in temp_files:
+			remove_quietly(temp_file)
 
 if __name__ == "__main__":
 	if "--profile" in sys.argv:
-- 
2.43.0


From a54b3dbd5de83eb9b67493fee9ab60dd439f3826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 21/89] fix: report data corruption instead of failing with a
 TypeError on exit

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 34758ef..a065e37 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -653,7 +653,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From 68f6830b4bfc97267ce00d09b12801fdd47d209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 22/89] fix: sample rebuild stays inside the output folder for
 every sample name

---
 resample/srs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a065e37..cafa6cf 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -496,7 +496,9 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# (the sample name never contains a path: stay in that folder)
+			result_file = os.path.join(out_folder,
+			                           os.path.basename(srs_data.name))
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From 31cd6077d4f06a11408e888c5cb9466a996a4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 23/89] fix: remove the temporary music copy when
 fingerprinting fails

---
 resample/fpcalc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/resample/fpcalc.py b/resample/fpcalc.py
index 6c34726..7ace621 100644
--- a/resample/fpcalc.py
+++ b/resample/fpcalc.py
@@ -47,10 +47,7 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 	"""Calculates the fingerprint of the given file.
 	temp_dir: optional temporary directory to use
 	recursive: local parameter to prevent endless loop after stripping tags"""
-	duration = fp = b""
-	bad = False
 	fpcalc = find_fpcalc_executable()
-	temp_cleanup = False
 
 	try:
 		file_name.encode('ascii')
@@ -61,14 +58,23 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 		# test release: VA-Tony_Hawks_Pro_Skater_4-Soundtrack-2003-RARNeT
 		# copy the file with a default name and create the fp for that file
 		print("Non-ASCII characters detected: creating temporary file.")
-		temp_cleanup = True
 		name_suffix = make_temp_suffix(file_name)
 		(fd, tmpname) = tempfile.mkstemp(name_suffix, dir=temp_dir)
 		os.close(fd)  # we won't use it
-		with open(file_name, "rb") as music_file:
-			with open(tmpname, "wb") as tmpf:
-				tmpf.write(music_file.read())
-		file_name = tmpname
+		try:
+			with open(file_name, "rb") as music_file:
+				with open(tmpname, "wb") as tmpf:
+					tmpf.write(music_file.read())
+			return _fingerprint(fpcalc, tmpname, temp_dir, recursive)
+		finally:
+			print("Removing %s" % tmpname)
+			os.remove(tmpname)
+
+	return _fingerprint(fpcalc, file_name, temp_dir, recursive)
+
+def _fingerprint(fpcalc, file_name, temp_dir, recursive):
+	duration = fp = b""
+	bad = False
 
 	# Set fingerprint length to 120 seconds
 	# older fpcalc versions default to 60 seconds
@@ -186,10 +192,6 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 			print("Removing %s" % stripped)
 			os.remove(stripped)
 
-	if temp_cleanup:
-		print("Removing %s" % tmpname)
-		os.remove(tmpname)
-
 	if bad:
 		raise ValueError("Fingerprinting failed.")
 
-- 
2.43.0


From 27476b5decc281d37e15b4f53aede55bdefcbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 24/89] fix: detect ID3 tagged music inside RARs

---
 resample/main.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index d3f08ad..6b22cea 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -127,6 +127,12 @@ def file_type_info(ifile):
 
 
 	archived_file_name = ""
+	is_archive = False
+
+	def open_media():
+		if is_archive:
+			return rarstream.RarStream(ifile, archived_file_name)
+		return open(ifile, 'rb')
 
 	try:
 		with open(ifile, 'rb') as ofile:
@@ -162,8 +168,9 @@ def file_type_info(ifile):
 			if not first_file and archived_file_name:
 				print("Using %s from first RAR." % archived_file_name)
 			rs = rarstream.RarStream(ifile, archived_file_name)
-			marker = rs.read(8)
+			marker = rs.read(14)
 			rs.close()
+			is_archive = True
 		except Exception as ex:
 			print(ex)
 			print("File: %s" % os.path.basename(ifile))
@@ -195,7 +202,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_ID3):
 		# can be MP3 or FLAC
 		size = decode_id3_size(marker[6:10])
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			ofile.seek(10 + size)
 			if ofile.read(4) == b"fLaC":
 				return FileType(FileType.FLAC, archived_file_name)
-- 
2.43.0


From b214f4f22b4942f4fda93299db68db9a628dd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 25/89] fix: MP4 main file that is not the first file of its
 RAR set

---
 resample/main.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 6b22cea..2b962dc 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2434,12 +2434,12 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file, archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2606,7 +2606,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3242,22 +3243,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 
 	for track_nb, track in tracks.items():
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+                              archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From a4bb87e6bb2423de013beefb19ead69ef0d482ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 26/89] fix: AVI match offsets inside a chunk that look like a
 chunk header

Four bytes of audio or video data that look like a FourCC in front of the
match offset made rebuilding from the right movie fail.
---
 resample/riff.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/resample/riff.py b/resample/riff.py
index 8f43846..07276ac 100644
--- a/resample/riff.py
+++ b/resample/riff.py
@@ -128,10 +128,22 @@ class RiffReader(object):
 
 	def _is_valid_chunk_location(self, offset):
 		"""Checks whether a certain offset is a valid chunk location to
-		start processing from. Based on Four Character Code."""
+		start processing from. Based on Four Character Code and length:
+		four such characters are also found inside audio or video data."""
 		self._riff_stream.seek(offset, os.SEEK_SET)
+		header = self._riff_stream.read(8)
+		if len(header) < 8 or not fourCCValidator.match(header[:4]):
+			return False
+		if not header[:2].isdigit() and header[:4] != b"LIST":
+			return False
+		(length,) = S_LONG.unpack_from(header, 4)
+		next_chunk = offset + 8 + length + length % 2
+		if next_chunk > self._file_length:
+			return False
+		# it must be followed by an other chunk (or nothing)
+		self._riff_stream.seek(next_chunk, os.SEEK_SET)
 		fourcc = self._riff_stream.read(4)
-		return fourCCValidator.match(fourcc)
+		return not fourcc or bool(fourCCValidator.match(fourcc))
 
 	def _find_chunk_offset(self, match_offset):
 		"""Finds the start offset of the chunk for the match_offset. It uses
-- 
2.43.0


From 63ed0053fc2d3c64c338a3b247411fd4607580d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 27/89] fix: recognise MP3 tracks in RARs by the archived name
 and data

---
 resample/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 2b962dc..f5f9b95 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -184,7 +184,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if ifile.endswith(".mp3"):
+		if (archived_file_name or ifile).endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
@@ -216,13 +216,14 @@ def file_type_info(ifile):
 
 		# last attempt to detect an MP3 file by using the ID3v1 tag
 		# (last 128 bytes of mp3 file)
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			try:
 				ofile.seek(-128, os.SEEK_END)
 				if ofile.read(3) == b"TAG":
 					return FileType(FileType.MP3, archived_file_name)
-			except EnvironmentError:
+			except (EnvironmentError, IndexError):
 				# IOError possible when RAR file is broken
+				# IndexError when less than 128 bytes are archived
 				pass
 
 		# check for stream types based on extension and sync for M2TS
-- 
2.43.0


From 9fb916e2eb6f1566ee461cd7cfd77aa97ba28f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 28/89] fix: damaged WMV and MP4 files with an impossible
 object size caused an endless loop

---
 resample/asf.py | 5 ++++-
 resample/mov.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/resample/asf.py b/resample/asf.py
index b381600..c98bd78 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -110,7 +110,6 @@ class AsfReader(object):
 		# 16 bytes for GUID, 8 bytes for object size
 		self.object_guid, size = struct.unpack("<16sQ", self._atom_header)
 
-
 		# sanity check on object length
 		# Skip check on GUID_DATA_OBJECT so we can still report expected size.
 		# This is only applied on samples,
@@ -196,6 +195,10 @@ class AsfReader(object):
 	def skip_contents(self):
 		if not self.read_done:
 			self.read_done = True
+			# the size includes the header: reading on would never end
+			if self.current_object.size < 24:
+				raise InvalidDataException("Invalid object length at 0x%08X" %
+				                           self.current_object.start_pos)
 			self._asf_stream.seek(self.current_object.start_pos +
 			                      self.current_object.size, os.SEEK_SET)
 
diff --git a/resample/mov.py b/resample/mov.py
index 10ca160..3bee8e4 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -120,6 +120,11 @@ class MovReader(object):
 				# the atom extends to the end of the file
 				atom_length = self._file_length - atom_start_position
 
+		# the size includes the header: reading on would never end
+		if atom_length < hsize:
+			raise InvalidDataException("Invalid box length at 0x%08X" %
+			                           atom_start_position)
+
 		# sanity check on atom length
 		# Skip check on mdat so we can still report expected size.
 		# This is only applied on samples,
-- 
2.43.0


From ac167dc67cbdc40df86ae9d006cecfa4f8ff0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 29/89] fix: damaged MP4 sample tables used up all memory

---
 resample/main.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index f5f9b95..56ed32a 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1289,9 +1289,6 @@ def profile_mp4(mp4_data,  # FileData object
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
 
-			# enlarge compactly coded tables
-			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
-
 # 			print(current_track.chunk_lengths)
 
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
@@ -1303,6 +1300,10 @@ def profile_mp4(mp4_data,  # FileData object
 					(out,) = BE_LONG.unpack_from(data, j)
 					current_track.sample_lengths.append(out)
 			else:
+				# do not use up all memory because of a damaged count
+				if sample_count > mr._file_length:
+					raise ValueError("Invalid MP4 sample count: %d" %
+					                 sample_count)
 				for i in range(sample_count):
 					current_track.sample_lengths.append(sample_size)
 # 			print(current_track.sample_lengths)
@@ -1313,6 +1314,10 @@ def profile_mp4(mp4_data,  # FileData object
 		    len(current_track.sample_lengths)):
 			track_processed = True
 
+			# enlarge compactly coded tables
+			current_track.chunk_lengths = stsc(
+				current_track.chunk_lengths, len(current_track.chunk_offsets))
+
 			# in profile mode, we want to build track signatures
 			# TODO: skip in other modes
 			current_track.signature_bytes = mp4_signature_bytes(current_track,
@@ -1326,8 +1331,9 @@ def profile_mp4(mp4_data,  # FileData object
 # 	assert meta_length == mp4_data.size - data_length
 	return tracks
 
-def stsc(samples_chunk):
-	"""Decompact compactly coded table."""
+def stsc(samples_chunk, chunk_count=None):
+	"""Decompact compactly coded table.
+	chunk_count: the number of chunks that actually exist"""
 	old = samples_chunk
 	new = []
 	index = 1
@@ -1336,7 +1342,10 @@ def stsc(samples_chunk):
 	for (first_chunk, samples_per_chunk, sample_description_index) in old:
 		if first_chunk > index:
 			# fill between chunks
-			for i in range(index, first_chunk):
+			last_chunk = first_chunk
+			if chunk_count is not None:
+				last_chunk = min(first_chunk, chunk_count + 1)
+			for i in range(index, last_chunk):
 				new.append((i, prev_samples_per_chunk,
 						prev_sample_description_index))
 				index += 1
@@ -3646,9 +3655,6 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 				# sample_description_index
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
-
-			# enlarge compactly coded tables
-			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
 			(sample_size,) = BE_LONG.unpack_from(data, 4)
 			(sample_count,) = BE_LONG.unpack_from(data, 8)
@@ -3658,6 +3664,10 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 					(out,) = BE_LONG.unpack_from(data, j)
 					current_track.sample_lengths.append(out)
 			else:
+				# do not use up all memory because of a damaged count
+				if sample_count > current_track.data_length:
+					raise ValueError("Invalid MP4 sample count: %d" %
+					                 sample_count)
 				for i in range(sample_count):
 					current_track.sample_lengths.append(sample_size)
 
@@ -3667,6 +3677,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		    len(current_track.chunk_lengths) and
 		    len(current_track.sample_lengths)):
 			track_processed = True
+			# enlarge compactly coded tables
+			current_track.chunk_lengths = stsc(
+				current_track.chunk_lengths, len(current_track.chunk_offsets))
 	mr.close()
 
 	return tracks
-- 
2.43.0


From 62ea9b3655569630013c56f648800838cdbce082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 30/89] fix: retag always returned a failing exit status

---
 bin/retag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/retag.py b/bin/retag.py
index 94a022b..a1fe8e6 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -79,6 +79,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		if not ok:
 			# file extraction failed or existing .srs not overwritten
 			print("Attempt to fix track aborted.")
+			failures += 1
 			continue
 		try:
 			success = fix_tagging(out, output_dir, input_dir, always_yes)
@@ -103,6 +104,8 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		"" if not skips else "%s skip%s." %
 	    	(skips, "" if skips == 1 else "s")))
 
+	return not failures
+
 def fix_tagging(srs, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
 	srs: srs file location
-- 
2.43.0


From 877066ab1ed656a73057af8a4a64618cf91fbb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 31/89] fix: retag removed .srs files of the user and aborted
 on video samples

---
 bin/retag.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index a1fe8e6..251ec8f 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -31,6 +31,8 @@ This tool fixes the tags of music files.
 from optparse import OptionParser
 import sys
 import os
+import shutil
+import tempfile
 
 try:
 	import _preamble
@@ -75,14 +77,15 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 	# fix music files that can be found
 	for srs in srs_files:
 		print("Using %s" % srs)
-		(out, ok) = rescene.extract_files(srr_file, output_dir, True, srs)[0]
-		if not ok:
-			# file extraction failed or existing .srs not overwritten
-			print("Attempt to fix track aborted.")
-			failures += 1
-			continue
+		temp_dir = ""
 		try:
-			success = fix_tagging(out, output_dir, input_dir, always_yes)
+			# never in the output folder: an .srs file there isn't ours
+			temp_dir = tempfile.mkdtemp(prefix="retag-")
+			out = rescene.extract_files(srr_file, temp_dir, True,
+			                            matcher=lambda name: name == srs)[0][0]
+			out_subfolder = os.path.dirname(os.path.relpath(out, temp_dir))
+			success = fix_tagging(out, out_subfolder, output_dir,
+			                      input_dir, always_yes)
 			if success:
 				successes += 1
 			else:
@@ -96,7 +99,8 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			print(str(e))
 			failures += 1
 		finally:
-			os.remove(out)
+			if temp_dir:
+				shutil.rmtree(temp_dir, ignore_errors=True)
 
 	print("\n\n%d/%d files succeeded. %d failure%s. %s" % (
 		successes, failures + successes, failures,
@@ -106,9 +110,10 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 
 	return not failures
 
-def fix_tagging(srs, output_dir, input_dir, always_yes):
+def fix_tagging(srs, out_subfolder, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
 	srs: srs file location
+	out_subfolder: folder of the track in the release
 	output_dir: root dir of the fixed release
 	input_dir: location to find the track to be fixed
 	always_yes: when to always confirm replacements
@@ -118,14 +123,12 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	except NoTaggingAvailable as not_music:
 		print("")
 		print(str(not_music))
-		os.remove(srs)
 		return False
 
 	original_name = srs_info.sample_name
 	print("Fixing %s" % original_name)
 
 	musicf = join_fix_case(input_dir, original_name)
-	out_subfolder = os.path.dirname(os.path.relpath(srs, output_dir))
 	if not os.path.isfile(musicf):
 		srr_path = out_subfolder.split("/")
 		srr_path.append(original_name)
-- 
2.43.0


From 4905aa184849d58b17d3ea232104eee889329587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 32/89] fix: retag succeeded when a damaged SRS file was
 skipped

---
 bin/retag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/retag.py b/bin/retag.py
index 251ec8f..2396302 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -91,8 +91,9 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			else:
 				# .srs is not a music file
 				skips += 1
-		except ValueError:
+		except ValueError as error:
 			# pexit() srs.py only throws ValueError
+			print(str(error))
 			failures += 1
 		except Exception as e:
 			print("Unexpected error!")
@@ -150,6 +151,8 @@ def fix_tagging(srs, out_subfolder, output_dir, input_dir, always_yes):
 
 def get_srs_info(srs_file):
 	file_type = file_type_info(srs_file).file_type
+	if file_type == FileType.Unknown:
+		raise ValueError("Not a valid SRS file: %s." % srs_file)
 	if file_type not in (FileType.MP3, FileType.FLAC):
 		message = "Not a FLAC or MP3 music file: %s." % srs_file
 		raise NoTaggingAvailable(message)
-- 
2.43.0


From 9cfa1b52cfd0cf19b69e4edbfedab6af6e032285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 33/89] fix: truncated RAR block data was accepted silently

---
 rescene/rar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index d5fe436..20b7f7b 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1601,7 +1601,11 @@ class RarReader(object):
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
 				(not is_recovery or recovery_stored) and add_size > 0:
-			block_buffer += self._rarstream.read(add_size)
+			additional = self._rarstream.read(add_size)
+			if len(additional) != add_size:
+				raise EnvironmentError("Invalid RAR block: data missing at "
+				       "offset {0:#x}".format(block_start_position))
+			block_buffer += additional
 
 		# If we're not returning the data, skip over it, 
 		# but only for RAR or SFX mode. 
-- 
2.43.0


From d005ef33b058e2aea274674332c84ce3bdf4adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 34/89] fix: SRS files without sample data were created from
 damaged samples

---
 resample/main.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 56ed32a..6d9a6f0 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1885,7 +1885,14 @@ def m2ts_profile_sample(self, m2ts_data):  # FileData object
 
 	return tracks, {}
 
+def check_data_stored(stored):
+	"""stored: the creation of the SRS file passed the location
+	for the data about the sample, so it can be found again"""
+	if not stored:
+		raise ValueError("The sample has no place to store the SRS data")
+
 def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		rr = RiffReader(RiffReadMode.AVI, sample)
 		while rr.read():
@@ -1899,6 +1906,7 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# we put them after the avi headers
 				# so mediainfo can still read them from the SRS
 				if c.list_type == b"LIST" and c.fourcc == b"movi":
+					stored = True
 					file_chunk = sample_data.serialize_as_riff()
 					assert file_chunk
 					srsf.write(file_chunk)
@@ -1925,8 +1933,10 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				if rr.has_padding:
 					srsf.write(S_BYTE.pack(rr.padding_byte))
 		rr.close()
+	check_data_stored(stored)
 
 def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		er = EbmlReader(EbmlReadMode.MKV, sample)
 		while er.read():
@@ -1937,6 +1947,7 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			if er.element_type == EbmlElementType.Segment:
 				# in store mode, create and write our custom ebml element
 				# as the first child of the segment
+				stored = True
 				file_element = sample_data.serialize_as_ebml()
 				element_size = len(file_element)
 
@@ -1977,8 +1988,10 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# EbmlElementType.AttachedFileName
 				srsf.write(er.read_contents())
 		er.close()
+	check_data_stored(stored)
 
 def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as movf:
 		mr = MovReader(MovReadMode.MP4, sample)
 		while mr.read():
@@ -1987,6 +2000,7 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			if atom.type == b"mdat":
 				# in store mode, create and write our custom atoms
 				# as atom child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_mov()
 				movf.write(file_atom)
 
@@ -2005,8 +2019,10 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				movf.write(mr.read_contents())
 		mr.close()
+	check_data_stored(stored)
 
 def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		ar = AsfReader(AsfReadMode.WMV, sample)
 		while ar.read():
@@ -2039,6 +2055,7 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 				# in store mode, create and write our custom objects
 				# as object child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_asf()
 				srsf.write(file_atom)
 
@@ -2063,8 +2080,10 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				srsf.write(ar.read_contents())
 		ar.close()
+	check_data_stored(stored)
 
 def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as flacf:
 		fr = FlacReader(sample)
 		while fr.read():
@@ -2074,6 +2093,7 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 			if fr.block_type == "fLaC":
 				# in store mode, create and write our custom blocks
+				stored = True
 				file_block = sample_data.serialize_as_flac()
 				flacf.write(file_block)
 
@@ -2090,13 +2110,16 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				flacf.write(fr.read_contents())
 		fr.close()
+	check_data_stored(stored)
 
 def mp3_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as mp3f:
 		mr = Mp3Reader(sample)
 		for block in mr.read():
 			if block.type in ("MP3", "fLaC"):
 				# in store mode, create and write our custom blocks
+				stored = True
 				file_block = sample_data.serialize_as_mp3()
 				mp3f.write(file_block)
 
@@ -2109,6 +2132,7 @@ def mp3_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				mp3f.write(mr.read_contents())
 		mr.close()
+	check_data_stored(stored)
 
 def stream_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as streamf:
-- 
2.43.0


From f1f43520e82abc8bf98945beb3ef9051eebf65dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 35/89] fix: remove all temporary directories of a compressed
 reconstruction, also when it fails

---
 rescene/main.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7a86d04..037a1b6 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1220,6 +1220,17 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	srr_part: string with volume(s) to reconstruct
 	rar_mt: object with settings for the rar -mt parameter
 	"""
+	try:
+		return _reconstruct(srr_file, in_folder, out_folder, extract_paths,
+			hints, skip_rar_crc, auto_locate_renamed, empty,
+			rar_executable_dir, tmp_dir, extract_files, srr_part, rar_mt)
+	finally:
+		temp_folder_cleanup()
+
+def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
+				skip_rar_crc, auto_locate_renamed, empty,
+				rar_executable_dir, tmp_dir, extract_files,
+				srr_part, rar_mt):
 	rar_name = ""
 	ofile = ""
 	source_name = None
@@ -1410,8 +1421,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		rarfs.close()
 	if srcfs:
 		srcfs.close()
-		
-	temp_folder_cleanup()
 
 def _write_recovery_record(block, rarfs):
 	"""block: original rar recovery block from SRR
@@ -1738,23 +1747,24 @@ regular_method_failed = False
 class EmptyRepository(Exception):
 	"""The RAR repository is empty."""
 
+used_temp_dirs = []
 class RarNotFound(Exception):
 	"""No good RAR executable can be found."""
 	
 def get_temp_directory():
 	global temp_dir
 	if temp_dir and os.path.isdir(temp_dir):
-		return mkdtemp(prefix="SRR-", dir=temp_dir)
-	return mkdtemp(prefix="SRR-")
+		new_dir = mkdtemp(prefix="SRR-", dir=temp_dir)
+	else:
+		new_dir = mkdtemp(prefix="SRR-")
+	used_temp_dirs.append(new_dir)
+	return new_dir
 
 def temp_folder_cleanup():
-	"""Temp directory cleanup op the second compressed reconstruction
-	method."""
-	try:
-		if os.path.isdir(working_temp_dir):
-			shutil.rmtree(working_temp_dir)
-	except TypeError:
-		pass
+	"""Cleanup of all the temp directories that were used for compressed
+	reconstruction, also when it failed."""
+	while used_temp_dirs:
+		shutil.rmtree(used_temp_dirs.pop(), ignore_errors=True)
 	
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
-- 
2.43.0


From eb06266070ec019768388024fdf7983b5492503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 36/89] fix: reconstruct compressed RAR 2.0x archives

---
 rescene/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 037a1b6..4e28ed0 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1577,7 +1577,9 @@ def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 			return block.file_crc != running_crc & 0xffffffff
 
 		# CRC check of file in the volume (last volume is across all of them)
-		if not file_end() and block.file_crc != file_crc & 0xffffffff:
+		# RAR 2.0x versions don't store a CRC for the data in the volume
+		if (not file_end() and block.file_crc != file_crc & 0xffffffff
+			and block.file_crc != 0xffffffff):
 			msg = "CRC mismatch in RAR volume: %s" % rarfs.name
 			_fire(MsgCode.CRC, message=msg)
 			print("%08x %08x" % (block.file_crc, file_crc & 0xffffffff), 
@@ -2469,8 +2471,6 @@ class CompressedRarFile(io.IOBase):
 			
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
-			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.path()) is not None)
 			found = False
 			if rar.supports_setting_threads():
 				while args.increase_thread_count(rar):
-- 
2.43.0


From b9c912f305f2b9748833c292b680a28895bafe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 37/89] fix: find data of files with another name or path in
 the second compressed method

---
 rescene/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 4e28ed0..769e570 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2697,6 +2697,7 @@ class CompressedRarFileAll(io.IOBase):
 		# pick one of the files with the highest thread count
 		for _key, value in archived_files.items():
 			if (value.good_rar.args.thread_count() > 
+		self.packed_names = {} # name in original RAR -> name in our RAR
 				rar_settings.args.thread_count()):
 				rar_settings = value.good_rar
 		
@@ -2705,8 +2706,9 @@ class CompressedRarFileAll(io.IOBase):
 		                                             self.COMPRESSED_NAME)
 		for block in blocks:
 			if block.packed_size != 0: # files and no directories
-				rar_settings.args.store_all_files.append(
-					_locate_file(block, *search_options))
+				src = _locate_file(block, *search_options)
+				self.packed_names[block.file_name] = os.path.basename(src)
+				rar_settings.args.store_all_files.append(src)
 		self.good_rar = rar_settings
 		
 		self.compress_files()
@@ -2738,7 +2740,7 @@ class CompressedRarFileAll(io.IOBase):
 		if not (block.flags & RarPackedFileBlock.DIRECTORY 
 		    == RarPackedFileBlock.DIRECTORY):
 			self.rarstream = RarStream(out, compressed=True, 
-				packed_file_name=os.path.basename(block.file_name))
+				packed_file_name=self.packed_names[block.file_name])
 			self.rarstream.seek(0, os.SEEK_END)
 			# test if file size match, otherwise try compressing again
 			if get_full_packed_size(block, 
-- 
2.43.0


From 609415ba53d7d13b1fcc68627976539cdc63accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 38/89] fix: solid archives with split files or leading empty
 files

---
 rescene/main.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 769e570..184ddd0 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2073,18 +2073,19 @@ def compressed_rar_file_factory(block, blocks, src,
 			                         followup, followup_src, solid=True)
 			
 		if block.flags & block.SOLID:
-			# get first file from archive
-			if block != blocks[0]:
+			# get first file from archive (empty files aren't compressed)
+			first = next(b for b in blocks if b.is_compressed())
+			if block != first:
 				if not followup:
 					# reuse CompressedRarFile because of the solid archive
-					rar = archived_files[blocks[0].file_name]
+					rar = archived_files[first.file_name]
 					rar.set_new(src, block)
 					return rar
 				else:
 					followup_src = _locate_file(followup, 
 					                   in_folder, hints, auto_locate_renamed)
 					# reuse CompressedRarFile because of the solid archive
-					rar = archived_files[blocks[0].file_name]
+					rar = archived_files[first.file_name]
 					rar.set_new(src, block, followup_src)
 					return rar
 		
@@ -2540,20 +2541,22 @@ class CompressedRarFile(io.IOBase):
 					RETURNCODE[compress.returncode])
 	
 			self.rarstream = RarStream(out, compressed=True,
-				packed_file_name=os.path.basename(self.source_files[-1]))
+				packed_file_name=os.path.basename(source_file))
 		compress()
 		
 		# this happens with solid archives when the first file is small
 		# an .idx file is detected as having -mt1, but the .sub file can
+		# the file can be split over multiple volumes
+		packed_size = get_full_packed_size(block, self.blocks)
 		# need 4 threads
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
 			_fire(MsgCode.MSG, message="Solid archive recompression.")
-			while(self.rarstream.length() != block.packed_size and 
+			while(self.rarstream.length() != packed_size and 
 				self.good_rar.supports_setting_threads() and
 				self.good_rar.args.increase_thread_count(self.good_rar)):
 				compress()
 			
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
 			raise ValueError("Something isn't right yet.")
 		
 	def get_most_recent_date(self):
-- 
2.43.0


From 7dff06f001bcd54ea539c60ed2c28d6ae29be87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 39/89] fix: no empty file name for rar when the next file
 isn't there

---
 rescene/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 184ddd0..12959d1 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2202,7 +2202,7 @@ class CompressedRarFile(io.IOBase):
 		self.current_block = first_block
 		self.blocks = blocks
 		self.source_files = [src]
-		if solid:
+		if solid and next_src:
 			self.source_files.append(next_src)
 		self.date = self.get_most_recent_date()
 		self.COMPRESSED_NAME = "pyReScene_compressed.rar"
@@ -2229,7 +2229,7 @@ class CompressedRarFile(io.IOBase):
 		
 		
 		# try again with the next (previous) files added too
-		if not self.good_rar and next_block and not solid:
+		if not self.good_rar and next_block and next_src and not solid:
 			self.source_files.append(next_src)
 			self.good_rar = self.search_matching_rar_executable(first_block, 
 				blocks, thread_count, more_files=True)
-- 
2.43.0


From 2c09c66bf64d0b624fe126156b54f5969151b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 40/89] fix: skip rar executables that fail instead of giving
 up

---
 rescene/main.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 12959d1..2c008f3 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1740,6 +1740,9 @@ RETURNCODE = {
 		255: "User stopped the process",
 	   }
 
+def return_message(returncode):
+	return RETURNCODE.get(returncode, "Return code %s" % returncode)
+
 archived_files = {}
 repository = None
 temp_dir = None
@@ -2273,7 +2276,7 @@ class CompressedRarFile(io.IOBase):
 		if compress.returncode != 0:
 			_fire(MsgCode.MSG, 
 				message="Something went wrong executing Rar.exe:")
-			_fire(MsgCode.MSG, message=RETURNCODE[compress.returncode])
+			_fire(MsgCode.MSG, message=return_message(compress.returncode))
 			
 		out = os.path.join(self.temp_dir, self.COMPRESSED_NAME)
 		try:
@@ -2365,7 +2368,13 @@ class CompressedRarFile(io.IOBase):
 					print(encodeerrors(stdout, sys.stdout))
 					_fire(MsgCode.MSG, message=
 						"Something went wrong executing Rar.exe:")
-					_fire(MsgCode.MSG, message=RETURNCODE[proc.returncode])
+					_fire(MsgCode.MSG, message=return_message(proc.returncode))
+				if proc.returncode not in (0, 1) or not os.path.isfile(out):
+					# this version can't tell how much is needed
+					copy_data(self.source_files[0], piece, size_full)
+					if os.path.isfile(out):
+						remove_archive(out)
+					break
 			
 				# check compressed size
 				rarblocks = RarReader(out)
@@ -2400,7 +2409,13 @@ class CompressedRarFile(io.IOBase):
 				print(encodeerrors(stdout, sys.stdout))
 				_fire(MsgCode.MSG, message=
 					"Something went wrong executing Rar.exe:")
-				_fire(MsgCode.MSG, message=RETURNCODE[compress.returncode])
+				_fire(MsgCode.MSG, message=return_message(compress.returncode))
+
+			if compress.returncode not in (0, 1) or not os.path.isfile(out):
+				# this version can't be used
+				if os.path.isfile(out):
+					remove_archive(out)
+				return False
 
 			# check if this is a good RAR version
 			start = size_min
@@ -2447,11 +2462,7 @@ class CompressedRarFile(io.IOBase):
 							start = 0
 						crc = zlib.crc32(rs.read(readsize), crc)
 			
-			os.remove(out)
-			try:
-				os.remove(out[:-4] + ".r00")
-			except:
-				pass
+			remove_archive(out)
 			
 			if crc & 0xFFFFFFFF == block.file_crc:
 				return True
@@ -2538,7 +2549,7 @@ class CompressedRarFile(io.IOBase):
 				_fire(MsgCode.MSG, message=
 					"Something went wrong executing Rar.exe:")
 				_fire(MsgCode.MSG, message=
-					RETURNCODE[compress.returncode])
+					return_message(compress.returncode))
 	
 			self.rarstream = RarStream(out, compressed=True,
 				packed_file_name=os.path.basename(source_file))
@@ -2729,7 +2740,7 @@ class CompressedRarFileAll(io.IOBase):
 		if compress.returncode != 0:
 			_fire(MsgCode.MSG, 
 				message="Something went wrong executing Rar.exe:")
-			_fire(MsgCode.MSG, message=RETURNCODE[compress.returncode])
+			_fire(MsgCode.MSG, message=return_message(compress.returncode))
 	
 	def set_file(self, block):
 		"""Sets the current file that must be served to the algorithm."""
@@ -2870,3 +2881,9 @@ def copy_data(source_file, destination_file, offset_amount):
 		with open(destination_file, 'wb') as destination:
 			destination.write(source.read(offset_amount))
 
+def remove_archive(first_volume):
+	"""Removes the volumes of a temporary archive."""
+	os.remove(first_volume)
+	for volume in glob(escape_glob(first_volume[:-4]) + ".r[0-9][0-9]"):
+		os.remove(volume)
+
-- 
2.43.0


From d733a251df2e902b1c3c8ce4419fb2ef57f49534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 41/89] fix: rebuild small incompressible files that are in
 volumes

---
 rescene/main.py      | 29 ++++++++++++++++++-----------
 rescene/rarstream.py |  4 ++++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2c008f3..dafd06a 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1747,12 +1747,12 @@ archived_files = {}
 repository = None
 temp_dir = None
 working_temp_dir = None
+used_temp_dirs = []
 regular_method_failed = False
 
 class EmptyRepository(Exception):
 	"""The RAR repository is empty."""
 
-used_temp_dirs = []
 class RarNotFound(Exception):
 	"""No good RAR executable can be found."""
 	
@@ -2430,7 +2430,8 @@ class CompressedRarFile(io.IOBase):
 					# it compressed better than we need
 					# crc check would fail
 					crc = -1
-				elif start == rs.length():
+				elif start == rs.length() and (
+					old or not block.flags & block.SPLIT_AFTER):
 					# RAR already calculated crc for us
 					# not sure if CRC is correct for small files because the
 					# last stored CRC value is that from the extracted data
@@ -2443,6 +2444,9 @@ class CompressedRarFile(io.IOBase):
 								ps = bl.packed_size # works because one big RAR
 								break
 					else:
+						if args.split: # it's in the volume the file ends in
+							rr.close()
+							rr = RarReader(rs.volumes()[-1])
 						for bl in rr:
 							if bl.rawtype == BlockType.RarPackedFile:
 								crc = bl.file_crc
@@ -2450,7 +2454,7 @@ class CompressedRarFile(io.IOBase):
 					rr.close()
 				else:
 					# we do the crc calculation ourselves
-					assert rs.length() > start
+					assert rs.length() >= start
 	
 					bufsize = 8*1024
 					while start > 0:
@@ -2480,6 +2484,9 @@ class CompressedRarFile(io.IOBase):
 		
 		if os.path.isfile(piece) and os.path.getsize(piece) != size_full:
 			args.set_split(int(os.path.getsize(piece) * 0.6))
+		elif size_full < size_compr:
+			# a single volume would just store the data
+			args.set_split(int(size_full * 0.6))
 			
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
@@ -2539,6 +2546,8 @@ class CompressedRarFile(io.IOBase):
 			"Compressing %s..." % os.path.basename(self.source_files[-1]))
 		self.good_rar.args.source_files = self.source_files
 		self.good_rar.args.set_solid(block.flags & block.SOLID)
+		# the file can be split over multiple volumes
+		packed_size = get_full_packed_size(block, self.blocks)
 		
 		def compress():
 			time.sleep(0.5)
@@ -2557,8 +2566,6 @@ class CompressedRarFile(io.IOBase):
 		
 		# this happens with solid archives when the first file is small
 		# an .idx file is detected as having -mt1, but the .sub file can
-		# the file can be split over multiple volumes
-		packed_size = get_full_packed_size(block, self.blocks)
 		# need 4 threads
 		if self.rarstream.length() != packed_size:
 			_fire(MsgCode.MSG, message="Solid archive recompression.")
@@ -2690,6 +2697,7 @@ class CompressedRarFileAll(io.IOBase):
 		self.current_block = block
 		self.COMPRESSED_NAME = "pyReScene_method2.rar"
 		self.rarstream = None
+		self.packed_names = {} # name in original RAR -> name in our RAR
 		
 		global working_temp_dir
 		working_temp_dir = get_temp_directory()
@@ -2711,7 +2719,6 @@ class CompressedRarFileAll(io.IOBase):
 		# pick one of the files with the highest thread count
 		for _key, value in archived_files.items():
 			if (value.good_rar.args.thread_count() > 
-		self.packed_names = {} # name in original RAR -> name in our RAR
 				rar_settings.args.thread_count()):
 				rar_settings = value.good_rar
 		
@@ -2876,14 +2883,14 @@ def custom_popen(cmd):
 	                        stdin=subprocess.PIPE, stderr=subprocess.STDOUT, 
 	                        creationflags=creationflags)
 	
-def copy_data(source_file, destination_file, offset_amount):
-	with open(source_file, 'rb') as source:
-		with open(destination_file, 'wb') as destination:
-			destination.write(source.read(offset_amount))
-
 def remove_archive(first_volume):
 	"""Removes the volumes of a temporary archive."""
 	os.remove(first_volume)
 	for volume in glob(escape_glob(first_volume[:-4]) + ".r[0-9][0-9]"):
 		os.remove(volume)
 
+def copy_data(source_file, destination_file, offset_amount):
+	with open(source_file, 'rb') as source:
+		with open(destination_file, 'wb') as destination:
+			destination.write(source.read(offset_amount))
+
diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 00047c0..c100980 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -138,6 +138,10 @@ class RarStream(io.IOBase):
 		self.packed_file_name = packed_file_name
 		return is_old_style_naming
 
+	def volumes(self):
+		"""The RAR volumes that have data of the packed file."""
+		return [vol.archive_path for vol in self._rar_volumes]
+
 	def length(self):
 		"""Length of the packed file being accessed."""
 		return self._packed_file_length
-- 
2.43.0


From 28a7a1ee8516586b36e814fdd05c99f98cebfc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 42/89] fix: do not reuse results of an earlier reconstruction

---
 rescene/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index dafd06a..d68cc21 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1220,11 +1220,17 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	srr_part: string with volume(s) to reconstruct
 	rar_mt: object with settings for the rar -mt parameter
 	"""
+	global repository, regular_method_failed
+	# nothing of an earlier reconstruction may be used
+	archived_files.clear()
+	regular_method_failed = False
+	previous_settings = (repository, RarArguments.mt_settings)
 	try:
 		return _reconstruct(srr_file, in_folder, out_folder, extract_paths,
 			hints, skip_rar_crc, auto_locate_renamed, empty,
 			rar_executable_dir, tmp_dir, extract_files, srr_part, rar_mt)
 	finally:
+		repository, RarArguments.mt_settings = previous_settings
 		temp_folder_cleanup()
 
 def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
-- 
2.43.0


From 46d143f5cb9b8e79e5eb808769779ea9751ed0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 43/89] fix: automatic tool when unrar is not found

---
 bin/pyrescene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..8eaaab9 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -133,7 +133,8 @@ def get_unrar():
 	return unrar_executable
 
 def unrar_is_available():
-	return os.path.isfile(os.path.abspath(get_unrar()))
+	unrar = get_unrar()  # None when it isn't found
+	return bool(unrar) and os.path.isfile(os.path.abspath(unrar))
 
 def can_create(always_yes, path):
 	retvalue = True
-- 
2.43.0


From 4a17fe0691e510d97ec1f69fd08bf6974f40eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 44/89] fix: store all samples whose names differ only in the
 extension

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 8eaaab9..106e21d 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -977,7 +977,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	# .mkv and .m2ts samples could have the same .srs name: prevent this
 	same_srs_name = []
 	rbase = lambda x: os.path.relpath(x, reldir).rsplit(".", 1)[0]
-	for (name, group) in itertools.groupby(map(rbase, media_files)):
+	for (name, group) in itertools.groupby(sorted(map(rbase, media_files))):
 		if len(list(group)) > 1:
 			same_srs_name.append(name)
 
-- 
2.43.0


From 66b6abc5bedfa31047976c1684ea63bf8733a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 45/89] fix: empty .vob sample does not abort the processing

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 106e21d..c3ebd76 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1072,7 +1072,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			sys.stderr = original_stderr
 
 		# create srr if it was a rared vob
-		if srs_result and sample.endswith(".vob"):
+		if srs_result in copied_files and sample.endswith(".vob"):
 			# can be useful to show the actual RAR that was used,
 			# based on the info stored in the archive end block
 			sinfo = sample_class_factory(file_type_info(srs_result).file_type)
-- 
2.43.0


From 36ef5d64cdc8a194f58e082d3612e1b84cc9dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 46/89] fix: nfo files like o.nfo are stored when the release
 is processed

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index c3ebd76..fc34ee9 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -939,7 +939,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	for nfo in get_files(reldir, "*.nfo"):
 		if os.path.basename(nfo).lower() in ("imdb.nfo", "tvmaze.nfo"):
 			continue
-		if os.path.basename(nfo).lower() in ("no.nfo"):
+		if os.path.basename(nfo).lower() == "no.nfo":
 			try:
 				if os.path.getsize(nfo) == 8:
 					continue  # contains the text "no.nfo"
-- 
2.43.0


From eaf5f2ac98f320ea599a30bcd8caf9756116b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 47/89] fix: releases are not skipped because of the name of an
 other one

---
 bin/pyrescene.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index fc34ee9..4806fb7 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1293,23 +1293,23 @@ def get_release_directories(path):
 			print(dirpath)
 			print(dirnames)
 			print(filenames)
-		if (last_release in dirpath and last_release and
-			# keep release names that start with the same string,
-			# so that they won't be skipped
-			# e.g.  ReleaseName-CUTG
-			#       ReleaseName-CUTGRP
-			# (subdirs have a separator more)
-			dirpath.rfind(os.sep) != last_release.rfind(os.sep)):
-			continue  # subfolders of a found release
-
-		if is_release(dirpath, dirnames, filenames):
-			last_release = dirpath
+		try:
+			release_found = is_release(dirpath, dirnames, filenames)
+		except OSError as error:
+			unreadable_folder(error)
+			continue
+
+		if release_found:
+			del dirnames[:]  # these aren't releases
+			release_dir = dirpath
 			try:
 				# so we don't take a short release name as SRR name
-				head, tail = os.path.split(last_release)
-				yield os.path.join(win32api.GetShortPathName(head), tail)
+				head, tail = os.path.split(release_dir)
+				release_dir = os.path.join(
+					win32api.GetShortPathName(head), tail)
 			except:
-				yield last_release
+				pass
+			yield release_dir
 
 NOT_SCENE = ["motechnetfiles.nfo", "movie.nfo", "scc.nfo",
              "imdb.nfo", "tvmaze.nfo"]
-- 
2.43.0


From d580f38a7f4b62c6cb8088e9bafe04ebadbeaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 48/89] fix: unreadable folders are reported by the automatic
 tool

---
 bin/pyrescene.py | 49 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 4806fb7..e270323 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -148,10 +148,15 @@ def can_create(always_yes, path):
 	return retvalue
 
 def get_files(release_dir, extension):
+def raise_error(error):
+	"""A folder that can't be read must not be seen as an empty one."""
+	raise error
+
 	"""Gather all 'extension' files from the subdirs."""
 	matches = []
 	try:
-		for dirpath, _dirnames, filenames in os.walk(release_dir):
+		for dirpath, _dirnames, filenames in os.walk(release_dir,
+		                                             onerror=raise_error):
 			for filename in filenames:
 				if fnmatch.fnmatchcase(filename.lower(), extension.lower()):
 					matches.append(os.path.join(dirpath, filename))
@@ -165,7 +170,8 @@ def get_files_list(release_dir, extension_list):
 	"""Gather all files that match an extension from the list."""
 	matches = []
 	try:
-		for dirpath, _dirnames, filenames in os.walk(release_dir):
+		for dirpath, _dirnames, filenames in os.walk(release_dir,
+		                                             onerror=raise_error):
 			for filename in filenames:
 				fn = filename.lower()
 				for video_ext in extension_list:
@@ -1263,21 +1269,38 @@ def generate_srr(reldir, working_dir, options, mthread):
 
 	return True
 
-def get_release_directories(path):
-	"""Generator that yields all possible release directories."""
+def get_release_directories(path, unreadable):
+	"""Generator that yields all possible release directories.
+	unreadable: list that the folders that can't be searched are added to"""
 	path = os.path.abspath(path)
-	last_release = ""
+
+	def unreadable_folder(error):
+		msg = "Could not read folder: %s" % error
+		print(encodeerrors(msg, sys.stdout))
+		logging.warning(encodeerrors(msg, sys.stderr))
+		unreadable.append(error.filename)
 
 	if os.name != "nt":
 		# wait until the DVD drive is mounted (max 30 seconds)
 		# limiter prevents endless loop when the input path is an empty folder
 		# normal for an optical drive that is still mounting
 		limiter = 0
-		while not len(os.listdir(path)) and limiter < 30:
-			print("Waiting 5 seconds for mount.")
-			time.sleep(5)
-			limiter += 5
+		try:
+			while not len(os.listdir(path)) and limiter < 30:
+				print("Waiting 5 seconds for mount.")
+				time.sleep(5)
+				limiter += 5
+		except OSError as error:
+			unreadable_folder(error)
+			return
 	else:
+	# the working dir could be unreadable
+	stored = rescene.info(tmp_srr_name)["stored_files"]
+	for cfile in copied_files:
+		path = os.path.relpath(cfile, working_dir).replace(os.sep, "/")
+		if path not in stored:
+			print("Could not store %s." % path)
+			return False
 		try:
 			# so it can work with longer directories
 			if not is_release(path):
@@ -1285,7 +1308,8 @@ def get_release_directories(path):
 		except:
 			pass
 
-	for dirpath, dirnames, filenames in os.walk(path):
+	for dirpath, dirnames, filenames in os.walk(path,
+	                                            onerror=unreadable_folder):
 		# The directory list is in arbitrary order, but on Windows it seems
 		# to be sorted alphabetical by default.
 		dirnames.sort()  # force alphabetical order
@@ -1578,7 +1602,7 @@ def main(argv=None):
 
 		for procdir in indirs:
 			procdir = os.path.abspath(procdir)
-			for release_dir in get_release_directories(procdir):
+			for release_dir in get_release_directories(procdir, unreadable):
 				if options.list_releases:
 					print_release(release_dir)
 				if options.missing_nfos:
@@ -1595,10 +1619,11 @@ def main(argv=None):
 						for sfile in os.listdir(sdir):
 							if vidext.match(sfile):
 								found = True
+		unreadable = []
 								break
 					if not found:
 						print_release(release_dir)
-		return 0
+		return 1 if len(unreadable) else 0
 
 	if options.always_yes and options.always_no:
 		print("Is it 'always yes' (-y) or 'always no' (-n)?")
-- 
2.43.0


From 28ce6f139aacfb66375ad90ec92f30ba7a6e4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 49/89] fix: --vobsubs fails without output and writes its
 result in one go

---
 bin/pyrescene.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index e270323..0b8994d 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1694,17 +1694,16 @@ def main(argv=None):
 			for vobsub_srr in srr_list:
 				f = os.path.basename(vobsub_srr)
 				out = os.path.join(options.output_dir, f)
-				if os.path.isfile(out):
-					if can_overwrite(out):
-						shutil.copy(vobsub_srr, out)
-						print("SRR file successfully created.")
-					else:
-						print("SRR file not overwritten.")
-				else:
-					shutil.copy(vobsub_srr, out)
+				if not os.path.isfile(out) or can_overwrite(out):
+					tmp_out = create_temp_file_name(out)
+					try:
+						shutil.copy(vobsub_srr, tmp_out)
+						replace_result(tmp_out, out)
+					finally:
+						remove_quietly(tmp_out)
 					print("SRR file successfully created.")
 			return 0
-		except ValueError as e:
+		except (ValueError, EnvironmentError, FileNotFound) as e:
 			# No RAR5 support yet
 			logging.warning("{0}: {1}".format(str(e), sfv))
 			return 1  # failure (no .srr created)
@@ -1745,6 +1744,11 @@ def main(argv=None):
 			reldir = os.path.abspath(reldir)
 			if not options.recursive:
 				result = generate_srr(reldir, working_dir, options, mthread)
+				else:
+					print("SRR file not overwritten.")
+			if not len(srr_list):
+				print("No SRR file created.")
+				return 1
 				if not result:
 					missing.append(reldir)
 					logging.warning("%s: SRR could not be created." % reldir)
-- 
2.43.0


From 729e858505778778fd854024c1c735d9beb22460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 50/89] fix: no SRR with truncated or missing files when
 copying fails

---
 bin/pyrescene.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0b8994d..4b94ba9 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -648,6 +648,8 @@ def copy_to_working_dir(working_dir, release_dir, copy_file):
 		if log:
 			logging.error("Failed to copy {0}: {1}".format(copy_file, e))
 
+			# never store a part of the file in the SRR
+			raise
 	return dest_file
 
 def key_sort_music_files(name):
@@ -1248,8 +1250,6 @@ def generate_srr(reldir, working_dir, options, mthread):
 				copied_files.remove(cfile)
 				print("Skipped over stored file: %s" % os.path.basename(cfile))
 
-	# some of copied_files can not exist
-	# this can be the case when the disk isn't readable
 	rescene.add_stored_files(
 		tmp_srr_name, copied_files, working_dir, True, False)
 	replace_result(tmp_srr_name, srr)
@@ -1284,6 +1284,13 @@ def get_release_directories(path, unreadable):
 		# wait until the DVD drive is mounted (max 30 seconds)
 		# limiter prevents endless loop when the input path is an empty folder
 		# normal for an optical drive that is still mounting
+	# the working dir could be unreadable
+	stored = rescene.info(tmp_srr_name)["stored_files"]
+	for cfile in copied_files:
+		path = os.path.relpath(cfile, working_dir).replace(os.sep, "/")
+		if path not in stored:
+			print("Could not store %s." % path)
+			return False
 		limiter = 0
 		try:
 			while not len(os.listdir(path)) and limiter < 30:
@@ -1294,13 +1301,6 @@ def get_release_directories(path, unreadable):
 			unreadable_folder(error)
 			return
 	else:
-	# the working dir could be unreadable
-	stored = rescene.info(tmp_srr_name)["stored_files"]
-	for cfile in copied_files:
-		path = os.path.relpath(cfile, working_dir).replace(os.sep, "/")
-		if path not in stored:
-			print("Could not store %s." % path)
-			return False
 		try:
 			# so it can work with longer directories
 			if not is_release(path):
-- 
2.43.0


From dee76f2f8c0c8bda563c77a17463756ccab32c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 51/89] fix: a failing release leaves no files and does not
 stop the others

---
 bin/pyrescene.py | 166 +++++++++++++++++++++++++++--------------------
 1 file changed, 96 insertions(+), 70 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 4b94ba9..cc5c0da 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -83,6 +83,7 @@ from resample.main import file_type_info, sample_class_factory, FileType
 from rescene.utility import raw_input, unicode, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import create_temp_file_name, replace_result
+from rescene.utility import remove_quietly
 from rescene.utility import capitalized_fn
 from rescene.utility import DISK_FOLDERS, RELEASE_FOLDERS 
 
@@ -147,11 +148,11 @@ def can_create(always_yes, path):
 			retvalue = False
 	return retvalue
 
-def get_files(release_dir, extension):
 def raise_error(error):
 	"""A folder that can't be read must not be seen as an empty one."""
 	raise error
 
+def get_files(release_dir, extension):
 	"""Gather all 'extension' files from the subdirs."""
 	matches = []
 	try:
@@ -647,9 +648,9 @@ def copy_to_working_dir(working_dir, release_dir, copy_file):
 				log = True
 		if log:
 			logging.error("Failed to copy {0}: {1}".format(copy_file, e))
-
 			# never store a part of the file in the SRR
 			raise
+
 	return dest_file
 
 def key_sort_music_files(name):
@@ -863,12 +864,58 @@ def mk_long_dir(destination):
 				print(e)
 
 def generate_srr(reldir, working_dir, options, mthread):
-	if os.listdir(working_dir) != []:
-		logging.warning("Failed to clean temp dir: {0}".format(working_dir))
-		# Cleaning can fail with PyPy and long dirs: create new working dir
-		working_dir = mkdtemp(prefix="SRR-", dir=options.temp_dir)
-		print("New temp dir: {0}".format(working_dir))
+	"""Returns False when the SRR of the release could not be created.
+	Nothing unfinished is left behind: other releases can be processed."""
+	original_stderr = sys.stderr
+	tmp_files = []  # next to the result
+	new_working_dir = None
+	try:
+		if os.listdir(working_dir) != []:
+			logging.warning("Failed to clean temp dir: {0}".format(working_dir))
+			# Cleaning can fail with PyPy and long dirs: create new working dir
+			new_working_dir = mkdtemp(prefix="SRR-", dir=options.temp_dir)
+			working_dir = new_working_dir
+			print("New temp dir: {0}".format(working_dir))
+
+		return create_release_srr(reldir, working_dir, options, mthread,
+		                          tmp_files)
+	except ExecutableNotFound:
+		raise
+	except Exception as e:
+		sys.stderr = original_stderr
+		mthread.wait_for_output()
+		msg = "%s: %s" % (type(e).__name__, e)
+		print(encodeerrors(msg, sys.stdout))
+		if isinstance(e, AssertionError):
+			print("Please report me this problem!")
+			print("https://bitbucket.org/Gfy/pyrescene/issues")
+		logging.error(encodeerrors("%s: %s" % (reldir, msg), original_stderr))
+		return False
+	finally:
+		sys.stderr = original_stderr
+		for tmp_file in tmp_files:
+			remove_quietly(tmp_file)
+		if new_working_dir:
+			shutil.rmtree(new_working_dir, ignore_errors=True)
+		else:
+			clean_working_dir(working_dir, mthread)
+
+def clean_working_dir(working_dir, mthread):
+	try:
+		empty_folder(working_dir)
+	except OSError as oserr:
+		mthread.wait_for_output()
+		print("Could not empty temporary working directory:")
+		print(working_dir)
+		print("This is a know problem for PyPy users.")
+		print("(And sadly others too, but less often.)")
+		# TODO: sure this isn't because of left open file handles?
+		# extracted files had read only attributes. fixed everywhere?
+		if _DEBUG:
+			print("Actual error: {0}".format(str(oserr)))
 
+def create_release_srr(reldir, working_dir, options, mthread, tmp_files):
+	"""tmp_files: gets the name of the result until it is finished"""
 	try:
 		print(reldir)
 	except UnicodeEncodeError:
@@ -882,6 +929,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 		srr_directory = options.output_dir
 	srr = os.path.join(srr_directory, relname + ".srr")
 	tmp_srr_name = create_temp_file_name(srr)
+	tmp_files.append(tmp_srr_name)
 
 	# speedup: don't do stuff when we don't overwrite an existing SRR anyway
 	if options.always_no and os.path.exists(srr):
@@ -906,16 +954,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 				return False
 		except IOError:
 			print("Read error. DVD disk unreadable? Try again!")
-			try:
-				os.unlink(tmp_srr_name)
-			except OSError:
-				pass
 			return False
-		except KeyboardInterrupt as e:
-			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
-				os.unlink(tmp_srr_name)
-			raise
 		except FileNotFound as e:
 			# rescene doesn't leave a partially finished file
 			try:
@@ -927,10 +966,6 @@ def generate_srr(reldir, working_dir, options, mthread):
 		except (ValueError, EnvironmentError) as e:
 			# e.g. 0 byte RAR file
 			# EnvironmentError: Invalid RAR block length (0) at offset 0xe4e1b1
-			try:
-				os.unlink(tmp_srr_name)
-			except:  # WindowsError
-				pass
 			print(e)
 			return False
 	else:
@@ -1065,11 +1100,8 @@ def generate_srr(reldir, working_dir, options, mthread):
 
 				# fpcalc executable isn't found
 				if str(e).endswith(MSG_NOTFOUND):
-					# do cleanup
 					sys.stderr.close()
 					sys.stderr = original_stderr
-					os.unlink(tmp_srr_name)
-					empty_folder(working_dir)
 					fpmsg = "Please put the fpcalc executable in your PATH."
 					raise ExecutableNotFound(fpmsg)
 
@@ -1106,7 +1138,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 							vobsrr, sample, tmp_srr_name=tmp_vobsrr_name)
 						replace_result(tmp_vobsrr_name, vobsrr)
 						copied_files.append(vobsrr)
-					except:
+					except Exception:
 						print("Broken RAR used as vobsample!")
 
 	# when stored SRS file instead of a sample file
@@ -1252,21 +1284,15 @@ def generate_srr(reldir, working_dir, options, mthread):
 
 	rescene.add_stored_files(
 		tmp_srr_name, copied_files, working_dir, True, False)
+	# the working dir could be unreadable
+	stored = rescene.info(tmp_srr_name)["stored_files"]
+	for cfile in copied_files:
+		path = os.path.relpath(cfile, working_dir).replace(os.sep, "/")
+		if path not in stored:
+			print("Could not store %s." % path)
+			return False
 	replace_result(tmp_srr_name, srr)
 
-	try:
-		empty_folder(working_dir)
-	except OSError as oserr:
-		mthread.wait_for_output()
-		print("Could not empty temporary working directory:")
-		print(working_dir)
-		print("This is a know problem for PyPy users.")
-		print("(And sadly others too, but less often.)")
-		# TODO: sure this isn't because of left open file handles?
-		# extracted files had read only attributes. fixed everywhere?
-		if _DEBUG:
-			print("Actual error: {0}".format(str(oserr)))
-
 	return True
 
 def get_release_directories(path, unreadable):
@@ -1284,13 +1310,6 @@ def get_release_directories(path, unreadable):
 		# wait until the DVD drive is mounted (max 30 seconds)
 		# limiter prevents endless loop when the input path is an empty folder
 		# normal for an optical drive that is still mounting
-	# the working dir could be unreadable
-	stored = rescene.info(tmp_srr_name)["stored_files"]
-	for cfile in copied_files:
-		path = os.path.relpath(cfile, working_dir).replace(os.sep, "/")
-		if path not in stored:
-			print("Could not store %s." % path)
-			return False
 		limiter = 0
 		try:
 			while not len(os.listdir(path)) and limiter < 30:
@@ -1600,6 +1619,7 @@ def main(argv=None):
 		exts = "|".join(FileType.VideoExtensions)
 		vidext = re.compile(".*(" + exts + ")$", re.IGNORECASE)
 
+		unreadable = []
 		for procdir in indirs:
 			procdir = os.path.abspath(procdir)
 			for release_dir in get_release_directories(procdir, unreadable):
@@ -1619,7 +1639,6 @@ def main(argv=None):
 						for sfile in os.listdir(sdir):
 							if vidext.match(sfile):
 								found = True
-		unreadable = []
 								break
 					if not found:
 						print_release(release_dir)
@@ -1655,6 +1674,7 @@ def main(argv=None):
 		return retvalue
 	rescene.main.can_overwrite = can_overwrite
 
+	report_fn = None
 	if options.report:
 		now = datetime.now()
 		report_fn = os.path.join(options.output_dir,
@@ -1675,8 +1695,30 @@ def main(argv=None):
 	except OSError:
 		print("The provided temporary directory does not exist.")
 		return 1  # failure
+	try:
+		print("Temporary directory: {0}".format(working_dir))
+		return process_releases(options, indirs, working_dir, can_overwrite,
+		                        start_time, report_fn)
+	finally:
+		remove_working_dir(working_dir)
+
+def remove_working_dir(working_dir):
+	"""delete temporary working dir"""
+	try:
+		shutil.rmtree(working_dir)
+	except OSError as oserr:
+		print("Could not empty temporary working directory!")
+		print(working_dir)
+		print("This is a know problem for PyPy users. (long paths issue)")
+		# I've seen this error with CPython too. Something else wrong?
+		# The temp dir was actually removed though.
+		# TODO: sure this isn't because of left open file handles?
+		# extracted files had read only attributes. fixed everywhere?
+		print("Actual error: {0}".format(str(oserr)))
+
+def process_releases(options, indirs, working_dir, can_overwrite, start_time,
+                     report_fn):
 	rescene.utility.temporary_directory = working_dir  # for utility (fpcalc)
-	print("Temporary directory: {0}".format(working_dir))
 
 	# SRR for vobsubs only. Only one file at a time; last file will be used.
 	if options.vobsubs:
@@ -1702,6 +1744,11 @@ def main(argv=None):
 					finally:
 						remove_quietly(tmp_out)
 					print("SRR file successfully created.")
+				else:
+					print("SRR file not overwritten.")
+			if not len(srr_list):
+				print("No SRR file created.")
+				return 1
 			return 0
 		except (ValueError, EnvironmentError, FileNotFound) as e:
 			# No RAR5 support yet
@@ -1744,21 +1791,13 @@ def main(argv=None):
 			reldir = os.path.abspath(reldir)
 			if not options.recursive:
 				result = generate_srr(reldir, working_dir, options, mthread)
-				else:
-					print("SRR file not overwritten.")
-			if not len(srr_list):
-				print("No SRR file created.")
-				return 1
 				if not result:
 					missing.append(reldir)
 					logging.warning("%s: SRR could not be created." % reldir)
 			else:
-				for release_dir in get_release_directories(reldir):
-					try:
-						result = generate_srr(release_dir, working_dir,
-						                      options, mthread)
-					except FileNotFound:
-						result = False
+				for release_dir in get_release_directories(reldir, missing):
+					result = generate_srr(release_dir, working_dir,
+					                      options, mthread)
 					if not result:
 						missing.append(release_dir)
 						logging.warning("%s: SRR could not be created." %
@@ -1802,19 +1841,6 @@ def main(argv=None):
 			print(encodeerrors(item, sys.stdout))
 		print("------------------------------------")
 
-	# delete temporary working dir
-	try:
-		shutil.rmtree(working_dir)
-	except OSError as oserr:
-		print("Could not empty temporary working directory!")
-		print(working_dir)
-		print("This is a know problem for PyPy users. (long paths issue)")
-		# I've seen this error with CPython too. Something else wrong?
-		# The temp dir was actually removed though.
-		# TODO: sure this isn't because of left open file handles?
-		# extracted files had read only attributes. fixed everywhere?
-		print("Actual error: {0}".format(str(oserr)))
-
 	# see if we need to eject a disk drive
 	if options.eject and os.name == "nt" and not aborted:
 		import ctypes
-- 
2.43.0


From 6ed33834a1ca8e8a73d68775b5c2833da2833f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 52/89] fix: an SRR made from an NZB replaces an older one only
 when complete

---
 rescene/main.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d68cc21..2f471c8 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -741,8 +741,9 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 	if not os.path.exists(spath): # TODO: test it!
 		os.makedirs(spath)
 	
-	srr = open(srr_name, "wb")
-	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
+	# an existing SRR file is only replaced by a complete one
+	tmp_srr_name = create_temp_file_name(srr_name)
+	srr = open(tmp_srr_name, "wb")
 	
 	class StatFailure(Exception):
 		"""The file isn't posted completely."""
@@ -877,27 +878,21 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 		# STORE OSO/ISDb HASHES
 		# Not for Usenet as we can't be 100% sure the hash will be valid
 		srr.close()
-	except KeyboardInterrupt:
-		srr.close()	
-		os.unlink(srr_name) # remove SRR as it is broken
-		raise
+		move_over(tmp_srr_name, srr_name)
 	except (FileNotFound, KeyError):
 		# KeyError should not occur
 		"""
 		  File "rescene.py", line 476, in create_srr_fh
 		    rarfile = allfiles[rarfile]
 		KeyError: u'shaolin.2011.720p.bluray.x264-soundwave.rar'"""
-		srr.close()	
-		os.unlink(srr_name) # remove SRR as it is broken
 		_fire(code=MsgCode.FILE_NOT_FOUND,
 			  message="Referenced file not found: %s" % rarfile)
 		raise
-	except:
-		srr.close()	
-		os.unlink(srr_name) # remove SRR as it is broken
-#		traceback.print_exc()
-#		raise FileNotFound("Broken file: %s" % rarfile)
-		raise
+	finally:
+		try:
+			srr.close()
+		finally:
+			remove_quietly(tmp_srr_name) # gone unless it is broken
 
 def _handle_sfv(sfile):
 	"""Helper function for create_srr and create_srr_fh that yields
-- 
2.43.0


From 6ddef527633c7c0a83cb7fe922fa4dd45a0a6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 53/89] fix: no broken stored files when reading a posted file
 fails

---
 rescene/main.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2f471c8..ab3f110 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1652,10 +1652,8 @@ def _store_fh(open_file, stream):
 	try:
 		open_file.seek(0) # has been read before for SFV parsing
 		data = open_file.read()
-		block = SrrStoredFileBlock(file_name=open_file.name, 
-								   file_size=open_file.file_size())
-		stream.write(block.block_bytes())
-		stream.write(data)
+		if len(data) != open_file.file_size():
+			raise ValueError("Size mismatch for %s." % open_file.name)
 	except Exception as ex:
 		# reading data fails, so just skip the file
 		print(ex)
-- 
2.43.0


From 12b75a1451166ace72a6f7dc67e2c1c3d6929376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 54/89] fix: no data lost when an article line starts with two
 dots

---
 usenet/yenc.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 7116e4c..ff99ea8 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -219,13 +219,8 @@ def strip(data):
 	while data and not data[-1]:
 		data.pop()
 
-	# http://www.yenc.org/develop.htm
-	# the NNTP-protocol requires to double a dot in the first colum
-	# when a line is sent - and to detect a double dot (and remove one of them)
-	# when receiving a line.
-	for i in range(len(data)):
-		if data[i].startswith(b'..'):
-			data[i] = data[i][1:]
+	# the doubled dots in the first column (NNTP-protocol) are already removed
+	# by everything that reads those lines: no more dots must be removed here
 	return data
 
 """
-- 
2.43.0


From ccc5cae6d7537c34ef2b90fccdd5aeaf4e1ce434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 55/89] fix: articles on an other server are found by HEAD and
 STAT

---
 usenet/srr_usenet.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 113f135..563728c 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -808,14 +808,18 @@ class NNTPFile(io.IOBase):
 				# download not more data than necessary for RR meta data
 				if (be_efficient() and i == end_part and
 					is_not_edge_segment(spart_nb)):
-					result = self.server.head("<%s>" % message_id)
 					lines = 0  # 'Lines: 6103'
-					try:  # Python 3
-						# [resp, ArticleInfo(number, message_id, lines)]
-						[_resp, [_article_number, _msg_id, lines]] = result
-						headers = lines
-					except ValueError:  # Python < 3
-						headers = result[3]
+					headers = []
+					try:
+						result = self.server.head("<%s>" % message_id)
+						try:  # Python 3
+							# [resp, ArticleInfo(number, message_id, lines)]
+							[_resp, [_article_number, _msg_id, headers]] = result
+						except ValueError:  # Python < 3
+							headers = result[3]
+					except nntplib.NNTPTemporaryError as error:
+						# could be on an other server
+						print(error)
 					for hline in headers:
 						match = re.match(b"Lines: (\d+)", hline, re.I)
 						if match:
@@ -1033,7 +1037,10 @@ class NNTPFile(io.IOBase):
 		# no need to STAT if the data already exists
 		if not self.nb_segments in self.data:
 			if self.group:
-				self.server.group(self.nzb_file.groups[0])
+				try:
+					self.server.group(self.nzb_file.groups[0])
+				except nntplib.NNTPTemporaryError as error:
+					print(error)
 			try:
 				(resp, _nr, _id) = self.server.stat("<%s>" %
 			                   self.segments[self.nb_segments].message_id)
@@ -1050,18 +1057,17 @@ class NNTPFile(io.IOBase):
 							if self.group:
 								for group in self.nzb_file.groups:
 									try:
-										self.server.group(group)
-										continue
+										s.group(group)
+										break
 									except nntplib.NNTPTemporaryError as error:
 										pass
 										# print(error)
 
-							(resp, _nr, _id) = self.server.stat("<%s>" %
+							(resp, _nr, _id) = s.stat("<%s>" %
 								self.segments[self.nb_segments].message_id)
 							if resp.startswith("223 "):
 								s.quit()
 								return True
-							break
 						except KeyboardInterrupt:
 							raise
 						except nntplib.NNTPError:
-- 
2.43.0


From f6dbee2f38da5524498281cea0a238dd079357f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 56/89] fix: an unusable SFV is replaced by an equally named
 better one

---
 usenet/srr_usenet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 563728c..36cc23e 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1187,7 +1187,12 @@ def create_srr(nzb_path, options):
 				# parse and see which one has the most files/data
 				(newe, newc, _newerr) = parse_sfv_file(sfile)
 				index = unique.index(sfile.name)
-				(olde, oldc, _olderr) = parse_sfv_file(uniqfile[index])
+				try:
+					(olde, oldc, _olderr) = parse_sfv_file(uniqfile[index])
+				except Exception as error:
+					# that one can't be used at all
+					print(error)
+					(olde, oldc) = ([], [])
 				if len(newe) > len(olde) or (len(newe) == len(olde)
 				                             and len(newc) > len(oldc)):
 					print("Using the better SFV file.")
-- 
2.43.0


From 91c56085454949bec39c374949f6e8bd9a116c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 57/89] fix: an SRR without SFV never replaces the one with SFV

---
 usenet/srr_usenet.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 36cc23e..60f528c 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1281,6 +1281,11 @@ def create_srr(nzb_path, options):
 				begin = [nntp_files[b].name for b in
 				         rescene.utility.first_rars(nntp_files.keys())]
 
+				# placed in a separate output folder:
+				# it doesn't replace an SRR that does have the SFV
+				# TODO: change priorities of the output dirs in the future
+				srrf = abspath(join(output_dir, "srr_no_sfv",
+				                    release_name + ".srr"))
 				try:
 					rescene.create_srr_fh(srrf, begin, nntp_files, to_store,
 					                      stat=not options.nostat,
@@ -1300,7 +1305,7 @@ def create_srr(nzb_path, options):
 
 			# unreproducable Skalman^ bug: how do you get here without
 			# creating a srr or raising an error??
-			if not os.path.isfile(srrf):
+			if not result or not os.path.isfile(srrf):
 				# it failed on STAT!
 
 # 				print("SHOW ME THIS!!!")
@@ -1310,23 +1315,6 @@ def create_srr(nzb_path, options):
 				print(srrf)
 				print("no sfv: %d" % NO_SFV)
 				print("result: %d" % result)
-			else:
-				SUBDIR = ""
-# 				srr_info = rescene.info(srrf)
-
-				# TODO: change priorities of the output dirs in the future
-				if NO_SFV:
-					SUBDIR = "srr_no_sfv"
-# 				if srr_info['compression']:
-# 					SUBDIR = "srr_compressed_rars"
-
-				if SUBDIR:  # move SRR to a subdirectory
-					try:
-						os.renames(srrf,
-							join(output_dir, SUBDIR, release_name + ".srr"))
-					except:
-						print("Moving '%s' to '%s' failed." % (release_name +
-						      ".srr", join(output_dir, SUBDIR)))
 
 		if options.fuckup:
 			assert False  # not letting this fucking stuff up either...
-- 
2.43.0


From dfe20c8a8adbbae8fee0af625d15134522d10bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 58/89] fix: empty NZB files are recognised

---
 usenet/nzb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index dcc65c2..903673e 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -61,7 +61,7 @@ def read_nzb(nzb_file):
 				previous_line = line
 				fixed_nzb.write(line)
 			# newsmangler can omit closing nzb tag too ...
-			if not nzb_end_tag:
+			if not nzb_end_tag and fixed_nzb.tell():
 				fixed_nzb.write(b"</nzb>")
 		# do not fail on empty NZB files
 		if fixed_nzb.tell() == 0:
-- 
2.43.0


From c79a4cfe131e7f2da02acd05f8ff3f73b3365d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 59/89] fix: NZB files in folders with brackets are processed

---
 usenet/srr_usenet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 60f528c..e4ecf60 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1430,7 +1430,7 @@ def create_srr_nzbmove(nzb_file):
 def process_dir(path, amount):
 	"""Does not fail if the NZB files are removed."""
 	try:
-		for gfile in glob.iglob(path + "/*.nzb"):
+		for gfile in glob.glob(rescene.main.escape_glob(path) + "/*.nzb"):
 			amount += 1
 			create_srr_nzbmove(gfile)
 	except IOError:
-- 
2.43.0


From dc8a6d82d35413b338f568562a170d940fd15360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 60/89] fix: a dry run moves no NZBs and existing NZBs are not
 overwritten

---
 usenet/srr_usenet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index e4ecf60..607cee3 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1357,6 +1357,11 @@ def create_srr_nzbmove(nzb_file):
 			os.renames(source, destination)
 		except OSError as windowserror:
 			# WindowsError: [Error 183] if the file already exists
+		if options.dry_run:
+			return
+		if os.path.exists(destination):
+			print("'%s' already exists: NZB not moved." % destination)
+			return
 			print(windowserror)
 	try:
 		result = create_srr(nzb_file, options)
@@ -1386,7 +1391,6 @@ def create_srr_nzbmove(nzb_file):
 		sys.exit(1)
 	except (IncompleteNzb, rescene.FileNotFound) as error:
 		print("ERROR: %s" % error)
-		# if not options.dry_run:
 		new = join(dirname(nzb_file), "bad", basename(nzb_file))
 		move_nzb(nzb_file, new)
 	except Repack as error:
-- 
2.43.0


From af92140ebc37cc2cd25c9ef15bdbc291bda6b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 61/89] fix: network failures and corrupt RARs are told apart
 for an NZB

---
 rescene/main.py      | 12 ++++++++++--
 usenet/srr_usenet.py | 31 +++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ab3f110..d0cab48 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -671,7 +671,8 @@ def _rarreader_usenet(rarfile, read_retries=7):
 	rr = RarReader(rarfile)
 	try:
 		return rr.read_all()
-	except (EnvironmentError, IndexError, nntplib.NNTPTemporaryError) as error:
+	except (EnvironmentError, EOFError, IndexError,
+	        nntplib.NNTPTemporaryError) as error:
 		# IndexError: Offset after end of file.
 		# EnvironmentError: Invalid RAR block length (9728) at offset 0xe4e1b3
 		# EnvironmentError: Invalid RAR block length (0) at offset 0xe4e1b1
@@ -691,7 +692,7 @@ def _rarreader_usenet(rarfile, read_retries=7):
 			try:
 				rr = RarReader(rarfile)
 				return rr.read_all()
-			except (EnvironmentError, IndexError,
+			except (EnvironmentError, EOFError, IndexError,
 			        nntplib.NNTPTemporaryError) as error:
 				print(error)
 				if stop <= read_retries:
@@ -749,6 +750,8 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 		"""The file isn't posted completely."""
 
 	try:
+		srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
+		
 		# COLLECT ARCHIVES ----------------------------------------------------
 		rarfiles = []
 		for infile in infiles:
@@ -1657,6 +1660,11 @@ def _store_fh(open_file, stream):
 	except Exception as ex:
 		# reading data fails, so just skip the file
 		print(ex)
+		return
+	block = SrrStoredFileBlock(file_name=open_file.name, 
+							   file_size=len(data))
+	stream.write(block.block_bytes())
+	stream.write(data)
 
 def _search(files, folder=""):
 	"""Enumerates all files to store. Yields a generator.
diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 607cee3..0585bad 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1347,30 +1347,41 @@ def create_srr(nzb_path, options):
 			print("SRR file ======== CREATED ========.")
 		else:
 			print("NOTHING created.")
-		server.quit()  # socket.timeout: timed out
+		try:
+			server.quit()  # socket.timeout: timed out
+		except (socket.error, EOFError, nntplib.NNTPError) as error:
+			# must not hide the actual result
+			print(error)
 	return result
 
 def create_srr_nzbmove(nzb_file):
 	"""Error/success handling"""
 	def move_nzb(source, destination):
-		try:
-			os.renames(source, destination)
-		except OSError as windowserror:
-			# WindowsError: [Error 183] if the file already exists
 		if options.dry_run:
 			return
 		if os.path.exists(destination):
 			print("'%s' already exists: NZB not moved." % destination)
 			return
+		try:
+			os.renames(source, destination)
+		except OSError as windowserror:
+			# WindowsError: [Error 183] if the file already exists
 			print(windowserror)
 	try:
 		result = create_srr(nzb_file, options)
-		if not result:
-			raise IncompleteNzb("SRR creation failed.")
 		if not options.dry_run:
+			if not result:
+				raise IncompleteNzb("SRR creation failed.")
 			new = join(dirname(nzb_file), "success", basename(nzb_file))
 			move_nzb(nzb_file, new)
-	except (socket.error, socket.timeout):
+	except (socket.error, socket.timeout, EOFError) as error:
+		# EOFError: the server closed the connection
+		if type(error) is EnvironmentError and error.errno is None:
+			# not from the network: a RAR file that can't be parsed
+			print("ERROR: %s" % error)
+			new = join(dirname(nzb_file), "bad", basename(nzb_file))
+			move_nzb(nzb_file, new)
+			return
 		print("No network connection.")
 # 			print("Could not connect to the first server. Aborting.")
 # 			print("socket.timeout while trying to send QUIT")
@@ -1405,7 +1416,7 @@ def create_srr_nzbmove(nzb_file):
 		if not options.dry_run:
 			new = join(dirname(nzb_file), faildir, basename(nzb_file))
 			move_nzb(nzb_file, new)
-	except (nntplib.NNTPError, yenc.YencException) as error:
+	except (nntplib.NNTPError, yenc.YencException, yenc.CrcError) as error:
 		# the problem was the news server
 		print("%s failed." % nzb_file)
 		print(error)
@@ -1414,7 +1425,7 @@ def create_srr_nzbmove(nzb_file):
 		faildir = "failure"
 		try:
 			ename = error.args[0]
-		except KeyError:
+		except (KeyError, IndexError):
 			ename = ""
 		if (ename == "Failure on all servers." or "430" in str(ename) or
 			ename == "No data available to decode."):
-- 
2.43.0


From 6409606f6ed92f7de3a870e72ca4db0a691b0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 62/89] fix: no RAR header search in a first segment that is
 not downloaded completely

---
 usenet/srr_usenet.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 0585bad..94e7f47 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -852,6 +852,18 @@ class NNTPFile(io.IOBase):
 				self.grab_segment(self.segments[i].message_id)
 			assert self.data[i]  # TODO: gets tripped! not anymore?
 
+		# check if more data is needed for the first segment:
+		# the MAGIC must not search a segment that is not there completely
+		if spart_nb == 1:
+			if spart_offset + size > len(self.data[1]):
+				print("More data needed! Grabbing... (first segment)")
+				sys.stdout.flush()
+				self.grab_segment(self.segments[1].message_id)
+
+				if (is_rar(self.name) and
+					self.segments[1].decoded_size != len(self.data[1])):
+					spart_offset = do_magic(spart_offset, spart_nb)
+
 		# do (additional) MAGIC on RAR end block if RR block and end block
 		# are part of the same segment
 		# or a seek operation occured before this read
@@ -891,20 +903,9 @@ class NNTPFile(io.IOBase):
 					spart_offset = do_magic(spart_offset, spart_nb)
 
 		# build the wanted range of data
-		# 0) check if more data is needed for the first/last segment
-		if spart_nb == 1:
-			if spart_offset + size > len(self.data[1]):
-				print("More data needed! Grabbing... (first segment)")
-				sys.stdout.flush()
-				self.grab_segment(self.segments[1].message_id)
-
-				if (is_rar(self.name) and
-					self.segments[1].decoded_size != len(self.data[1])):
-					spart_offset = do_magic(spart_offset, spart_nb)
-
 		odiff = orig_spart_offset - spart_offset  # 0 if nothing is wrong
 
-		# check the last segment too
+		# 0) check the last segment too
 		data_size = len(self.data[end_part]) + odiff
 		if data_size < end_offset:
 			print("More data needed! Grabbing... (segment %d)" % end_part)
-- 
2.43.0


From 4f0bc025d5a2fca393eee9b3e4adee14bb3d08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 63/89] fix: samples of one track with a cut off signature are
 rebuilt

---
 resample/srs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index cafa6cf..aa02efd 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -163,8 +163,12 @@ def find_best_educated_guesses(tracks, cut_data):
 	offsets_good_tracks = [t.match_offset for t in tracks.values()
 	                       if t.track_number not in cut_data
 	                       or not len(cut_data[t.track_number])]
-	min_offset = min(offsets_good_tracks)
-	max_offset = max(offsets_good_tracks)
+	if offsets_good_tracks:
+		min_offset = min(offsets_good_tracks)
+		max_offset = max(offsets_good_tracks)
+	else:  # nothing to compare with: all offsets are possible
+		min_offset = -1
+		max_offset = sys.maxsize
 
 	# find last match below, in range or just after above range
 	for track_id in cut_data:
-- 
2.43.0


From f211f51849249b0f132d4d25f060068b990deea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 64/89] fix: no RAR end block search while reading the rest of
 a block

---
 usenet/srr_usenet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 94e7f47..16a493c 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -869,7 +869,9 @@ class NNTPFile(io.IOBase):
 		# or a seek operation occured before this read
 		# block with 6 trailing 0-bytes exits
 		bleft = self._file_size - self._current_position
-		if (is_rar(self.name) and bleft in (20, 18, 7, 9, 11, 13, 14, 16, 26)
+		# -> blocks are read by their basic header (7 bytes) first
+		if (is_rar(self.name) and size == 7
+		                      and bleft in (20, 18, 7, 9, 11, 13, 14, 16, 26)
 		                      and not self._end_magic_before):
 			# we don't want MAGIC occuring on the last bytes
 			# if we have already done the first 7 bytes
-- 
2.43.0


From d8ab1a001696c851a4b15031320bfb05f132c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 65/89] fix: verify files with content of which the checksum is
 zero

---
 rescene/srr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index d6f6eb0..a26ee32 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -176,7 +176,8 @@ def verify_extracted_files(srr, in_folder, auto_locate):
 		if os.sep == '/':
 			afile.file_name = afile.file_name.replace('\\', '/')
 		# skip the directories and empty files
-		if afile.crc32 != "00000000" and afile.crc32 != "0":
+		# (a file with content can have zero as checksum too)
+		if afile.crc32 not in ("00000000", "0") or afile.file_size:
 			name = os.path.join(in_folder, afile.file_name)
 			if not os.path.exists(name):
 				if not auto_locate:
-- 
2.43.0


From 5c0d941d7205745ae5646c95617e9b76fc8d225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 66/89] fix: reopen a file that is packed in the next archive
 too

---
 rescene/main.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d0cab48..95edc19 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1328,7 +1328,8 @@ def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
 		elif block.rawtype == BlockType.RarPackedFile:
 			if skip_volume:
 				# keep track of offsets in the packed file
-				if skip_name != block.file_name:
+				if (skip_name != block.file_name
+					or not block.flags & block.SPLIT_BEFORE):
 					skip_offset = block.packed_size
 				else:
 					skip_offset += block.packed_size
@@ -1349,7 +1350,9 @@ def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
+			# (the next archive can start with the same file)
 			if (source_name != block.file_name
+				or not block.flags & block.SPLIT_BEFORE
 				or (partial_reconstruction and not partial_set)
 				or (partial_set and source_name != block.file_name)):
 				try: srcfs.close()
@@ -1388,7 +1391,8 @@ def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
 			
 			# make sure the offset is correct
 			if partial_reconstruction and not partial_set:
-				if skip_name == block.file_name:
+				if (skip_name == block.file_name
+					and block.flags & block.SPLIT_BEFORE):
 					# CRC of the data before this volume, so the
 					# CRC of the complete file can still be verified
 					if not skip_rar_crc and not block.is_compressed():
@@ -1780,9 +1784,10 @@ def temp_folder_cleanup():
 	
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
-	rar_object = archived_files.setdefault(block.file_name,
-		compressed_rar_file_factory(block, blocks, src, in_folder, hints,
-		                            auto_locate_renamed))
+	# a file with this name can be from another archive
+	rar_object = compressed_rar_file_factory(block, blocks, src, in_folder,
+	                                         hints, auto_locate_renamed)
+	archived_files[block.file_name] = rar_object
 	return rar_object
 
 def initialize_rar_repository(location):
-- 
2.43.0


From 4b2d3af9868c9561ceab519987442e8ff63aaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 67/89] fix: try the given thread counts in any order

---
 rescene/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 95edc19..481f2f9 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1959,7 +1959,7 @@ class RarArguments(object):
 
 		if not self.threads:
 			if self.mt_settings.mt_set:
-				for count in self.mt_settings.mt_set:
+				for count in sorted(self.mt_settings.mt_set):
 					in_range = mt_min <= count <= mt_max and count <= mtcount
 					if in_range:
 						self.threads = "-mt%d" % count
@@ -1973,7 +1973,7 @@ class RarArguments(object):
 		else:
 			current_count = self.thread_count()
 			if self.mt_settings.mt_set:
-				for count in self.mt_settings.mt_set:
+				for count in sorted(self.mt_settings.mt_set):
 					in_range = (mt_min <= count <= mt_max and 
 					            count <= mtcount and
 					            count > current_count)
-- 
2.43.0


From 3d90a4ad49cf3c9e0d6d88771e0c484178d5eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 68/89] fix: don't pad a file for a damaged RAR header

---
 rescene/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 481f2f9..ca2cb9b 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1572,6 +1572,11 @@ def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 			# If the file didn't have as many bytes as we needed, this file 
 			# record was padded. Add null bytes to correct the length.
 			# bytes are not used in CRC check - See ReScene .NET 1.2
+			# (the size in a damaged header can be anything: don't add GBs)
+			header = block.block_bytes()
+			if zlib.crc32(header[2:]) & 0xffff != block.crc:
+				raise ValueError("Not enough data for %s and its RAR header "
+				                 "is damaged." % block.file_name)
 			rarfs.write(bytearray(bytes_to_copy - bytes_read))
 			print("Crappy release group. Adding %d zero bytes." % 
 			      (bytes_to_copy - bytes_read))
-- 
2.43.0


From 4bf79c060f7c5c8baf18a8ed6fc60efd404d7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 69/89] fix: no SRR blocks inside of RAR archives

---
 rescene/rar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index 20b7f7b..b4a1182 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1536,6 +1536,12 @@ class RarReader(object):
 		if btype == BlockType.RarMax:
 			self._rar_end_block_encountered = True
 		
+		# these aren't RAR blocks: they would get a meaning in an SRR file
+		if (self._readmode == self.RAR and
+			BlockType.SrrHeader <= btype < BlockType.RarMin):
+			raise EnvironmentError("Invalid RAR block type (" + hex(btype) +
+					") at offset {0:#x}".format(block_start_position))
+
 		# one more sanity check on the length before continuing
 		if (hsize < HEADER_LENGTH or 
 			block_start_position + hsize > self._file_length):
-- 
2.43.0


From 494dba91cad0df31e6aa4fcc5ec32a7ba4642ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 70/89] fix: refuse to add files that get an already stored
 name

---
 rescene/main.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ca2cb9b..d729cb7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -283,12 +283,25 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 				else:
 					raise DupeFileName(msg)
 
+	in_folder = in_folder if in_folder else os.path.dirname(srr_file)
+	if not usenet:
+		# the names they get can be there already too
+		stored = set(block.os_file_name() for block in rr.read_all()
+		             if block.rawtype == BlockType.SrrStoredFile)
+		found_files = list(_search(store_files, in_folder))
+		for f in found_files:
+			name = _stored_name(f, save_paths, in_folder)
+			if name in stored:
+				msg = "There already is a file with the same name stored."
+				_fire(MsgCode.DUPE, message=msg)
+				raise DupeFileName(msg)
+			stored.add(name)
+
 	# create a temporarily file
 	tmpfd, tmpname = mkstemp(prefix="srr_", suffix=".tmp", 
 							 dir=os.path.dirname(srr_file))
 	tmpfile = os.fdopen(tmpfd, "wb")
 
-	in_folder = in_folder if in_folder else os.path.dirname(srr_file)
 	location = False # whether we've added the files or not
 	if _DEBUG: print("Reading blocks for adding files.")
 	try:
@@ -298,7 +311,7 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 				location = True
 				if not usenet:
 					amount_added = 0
-					for f in _search(store_files, in_folder):
+					for f in found_files:
 						_store(f, tmpfile, save_paths, in_folder)
 						amount_added += 1
 					if not amount_added:
@@ -318,7 +331,7 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 		if not location: # music video SRR file: add to end
 			if not usenet:
 				amount_added = 0
-				for f in _search(store_files, in_folder):
+				for f in found_files:
 					_store(f, tmpfile, save_paths, in_folder)
 					amount_added += 1
 				if not amount_added:
@@ -1626,8 +1639,8 @@ def _flag_check_srr(block):
 			  "flag value encountered in SRR file. This file may use features "
 			  "not supported in this version of the application.")
 		
-def _store(sfile, stream, save_paths, in_folder):
-	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
+def _stored_name(sfile, save_paths, in_folder):
+	"""The name that the file gets in the SRR."""
 	file_name = os.path.basename(sfile)
 	if save_paths:  # AttributeError: 'NoneType' object has no attr...
 		try:
@@ -1647,7 +1660,11 @@ def _store(sfile, stream, save_paths, in_folder):
 			file_name = os.path.basename(sfile)
 			msg = "WARNING: No path stored for file: %s"
 			_fire(MsgCode.MSG, message=msg % fsunicode(file_name))
-	file_name = fsunicode(file_name)
+	return fsunicode(file_name)
+
+def _store(sfile, stream, save_paths, in_folder):
+	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
+	file_name = _stored_name(sfile, save_paths, in_folder)
 	_fire(MsgCode.STORING, message="Storing file: %s" % file_name)
 	
 	block = SrrStoredFileBlock(file_name=file_name, 
-- 
2.43.0


From 37499facfe623583569075b4b3aae5454f4ccf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 71/89] fix: store files that grow while they are read with the
 right size

---
 rescene/main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d729cb7..e3b537e 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1667,13 +1667,14 @@ def _store(sfile, stream, save_paths, in_folder):
 	file_name = _stored_name(sfile, save_paths, in_folder)
 	_fire(MsgCode.STORING, message="Storing file: %s" % file_name)
 	
-	block = SrrStoredFileBlock(file_name=file_name, 
-							   file_size=os.path.getsize(sfile))
+	# the size of what gets stored: the file can still be growing
+	with open(sfile, "rb") as fdata:
+		data = fdata.read()
+	block = SrrStoredFileBlock(file_name=file_name, file_size=len(data))
 #	if save_paths:
 #		block.flags |= SrrStoredFileBlock.PATHS_SAVED
-	with open(sfile, "rb") as fdata:
-		stream.write(block.block_bytes())
-		stream.write(fdata.read())
+	stream.write(block.block_bytes())
+	stream.write(data)
 		
 def _store_fh(open_file, stream):
 	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
-- 
2.43.0


From 75c018f3079262b33fbce99301e5d88b9d094396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 72/89] fix: notice a volume without its part of the streamed
 file

---
 rescene/rarstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index c100980..6326259 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,7 +79,10 @@ class RarStream(io.IOBase):
 
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
+			parts = len(self._rar_volumes)
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			if self._missing_after and len(self._rar_volumes) == parts:
+				break  # the file doesn't continue here: damaged volume
 			# the first file is meant in all volumes, not in each volume
 			packed_file_name = self.packed_file_name
 			rar_file = utility.next_archive(rar_file, is_old)
-- 
2.43.0


From a7159ee1d2e572e16a850899c0c55d3b661e3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 73/89] fix: rebuild a sample whose attachments have the same
 name

Only the first attachment of a name was extracted; the data of the next
one was left unread and the rebuild stopped with an assertion.
---
 resample/main.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 6d9a6f0..3e89885 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3120,7 +3120,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 
 	attachments = {}
 	tracks_main = {}  # contains TrackData objects; main mkv info
-	current_attachment = None
+	current_attachment = b""
 	cluster_count = 0
 	done = False
 	current_track_nb = 0
@@ -3181,19 +3181,19 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
-			if current_attachment not in attachments:
-				att = AttachmentData(current_attachment)
-				attachments[current_attachment] = att
 		elif er.element_type == EbmlElementType.AttachedFileData:
-			attachment = attachments[current_attachment]
+			# several attachments can have the same name
+			while current_attachment in attachments:
+				current_attachment += b".dupe"
+			attachment = AttachmentData(current_attachment)
 			attachment.size = er.current_element.length
+			attachments[current_attachment] = attachment
 
 			# in extract mode,
 			# extract all attachments in case we need them later
-			if attachment.attachment_file == None:
-				attachment.attachment_file = tempfile.TemporaryFile()
-				attachment.attachment_file.write(er.read_contents())
-				attachment.attachment_file.seek(0)
+			attachment.attachment_file = tempfile.TemporaryFile()
+			attachment.attachment_file.write(er.read_contents())
+			attachment.attachment_file.seek(0)
 		else:
 			er.skip_contents()
 
@@ -3515,7 +3515,8 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
-		current_attachment = None
+		current_attachment = b""
+		restored = set()  # names of the attachments already written
 		cluster_count = 0
 		while er.read():
 			# the ReSample element is the only part of the SRS file
@@ -3545,6 +3546,10 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				sample.write(current_attachment)
 				crc = crc32(current_attachment, crc) & 0xFFFFFFFF
 			elif er.element_type == EbmlElementType.AttachedFileData:
+				# the next one with this name
+				while current_attachment in restored:
+					current_attachment += b".dupe"
+				restored.add(current_attachment)
 				attachment = attachments[current_attachment]
 				# restore data from extracted attachments
 				buff = attachment.attachment_file.read()
-- 
2.43.0


From 716a4b400d64d5a03c7abb9d0765b8cde7f07007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 74/89] fix: store the ISDb hash when the SFV spells the RAR
 names differently

The volumes are found whatever their capitals, but the hash was taken
from the name in the SFV: no such file, and the hash was left out.
---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index e3b537e..f3fe3f7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -576,7 +576,7 @@ def create_srr(srr_name, infiles, in_folder="",
 							           "compression method: %s" % rarfile)
 					else:
 						# store first RAR where we encounter the stored file
-						oso_dict.setdefault(block.os_file_name(), rarfile)
+						oso_dict.setdefault(block.os_file_name(), rfexact)
 				elif _is_recovery(block):
 					_fire(MsgCode.RBLOCK, message="RAR Recovery Block",
 						  packed_size=block.packed_size,
-- 
2.43.0


From 3f7aafe3f78edc928fbbf3aee69badd5456e7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 75/89] fix: keep every entry when NZB files get merged, split
 or filtered

The result was opened in text mode for bytes, written over the old file in
place, the last release replaced an existing file, merging looked for the
folders in the current directory and removed files it read nothing from, and
filtering could write over its own input.
---
 usenet/nzb_merge.py          | 16 +++++++++----
 usenet/nzb_sample_extract.py |  6 +++--
 usenet/nzb_split.py          | 46 +++++++++++++-----------------------
 usenet/nzb_utils.py          | 20 ++++++++++++++++
 4 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index ff4fdfa..6ebd982 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -30,7 +30,8 @@ import nzb_utils
 
 def merge_nzbs(nzbdir):
 	nzb_files = [os.path.join(nzbdir, e) for e in os.listdir(nzbdir)
-	             if not os.path.isdir(e) and e[-4:].lower() == ".nzb"]
+	             if not os.path.isdir(os.path.join(nzbdir, e)) and
+	             e[-4:].lower() == ".nzb"]
 	if len(nzb_files) > 1:
 		nzb_files.sort(key=lambda f: len(f))
 
@@ -38,14 +39,18 @@ def merge_nzbs(nzbdir):
 		for nfile in nzb_files:
 			read_nzbs[nfile] = nzb_utils.read_nzb(nfile)
 
+		# nothing to merge for those: leave them alone
+		nzb_files = [nfile for nfile in nzb_files if read_nzbs[nfile]]
+		if len(nzb_files) < 2:
+			return
+
 		doc = nzb_utils.empty_nzb_document()
 		for nzb in nzb_files:
 			for nfile in read_nzbs[nzb]:
 				nzb_utils.add_file(doc, nfile)
 
 		# shortest directory name we will overwrite
-		with open(nzb_files[0], "w") as nzb:
-			nzb.write(nzb_utils.get_xml(doc))
+		nzb_utils.write_nzb(doc, nzb_files[0])
 
 		# remove other nzb files
 		for nzbfile in nzb_files[1:]:
@@ -55,8 +60,9 @@ def merge_nzbs(nzbdir):
 def main(options, args):
 	main_dir = os.path.abspath(args[0])
 	for ldir in os.listdir(main_dir):
-		if os.path.isdir(ldir):
-			merge_nzbs(os.path.join(main_dir, ldir))
+		nzbdir = os.path.join(main_dir, ldir)
+		if os.path.isdir(nzbdir):
+			merge_nzbs(nzbdir)
 
 if __name__ == '__main__':
 	parser = optparse.OptionParser(
diff --git a/usenet/nzb_sample_extract.py b/usenet/nzb_sample_extract.py
index 5fcbf5d..5246c5c 100644
--- a/usenet/nzb_sample_extract.py
+++ b/usenet/nzb_sample_extract.py
@@ -109,8 +109,10 @@ def extract_sample(nzb_file, output_dir):
 			os.makedirs(os.path.dirname(snzb_file))
 		except:
 			pass
-		with open(snzb_file, "w") as sample:
-			sample.write(nzb_utils.get_xml(sample_nzb))
+		if os.path.realpath(snzb_file) == os.path.realpath(nzb_file):
+			print("Not replacing %s." % nzb_file)
+		else:
+			nzb_utils.write_nzb(sample_nzb, snzb_file)
 
 def main(options, args):
 	def check_file(pfile):
diff --git a/usenet/nzb_split.py b/usenet/nzb_split.py
index 550fca7..fa03d91 100644
--- a/usenet/nzb_split.py
+++ b/usenet/nzb_split.py
@@ -187,26 +187,8 @@ def main(options, args):
 			rel = rel.strip("_")
 
 			if rel != current_rel:
-				try:
-					new = os.path.join(output_dir,
-					              current_rel.replace('"', '') + ".nzb")
-					exists = os.path.exists(new)
-					if current_rel and not exists:
-						with open(new, "w") as nzb:
-							doc = nzb_utils.empty_nzb_document()
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-					elif exists:
-						doc = nzb_utils.empty_nzb_document()
-						for nzbfile in nzb_utils.read_nzb(new):
-							nzb_utils.add_file(doc, nzbfile)
-						with open(new, "w") as nzb:
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-				except KeyError:
-					pass
+				write_release(output_dir, current_rel,
+				              reldict.pop(current_rel, []))
 				current_rel = rel
 
 			files = reldict.setdefault(rel, [])
@@ -216,16 +198,20 @@ def main(options, args):
 			print("Failed: %s" % nzb_file.subject)
 
 	# write out last match
-	try:
-		new = os.path.join(output_dir,
-		                   current_rel.replace('"', '') + ".nzb")
-		with open(new, "w") as nzb:
-			doc = nzb_utils.empty_nzb_document()
-			for rfile in reldict.pop(current_rel):
-				nzb_utils.add_file(doc, rfile)
-			nzb.write(nzb_utils.get_xml(doc))
-	except KeyError:
-		pass
+	write_release(output_dir, current_rel, reldict.pop(current_rel, []))
+
+def write_release(output_dir, rel, files):
+	"""Adds the files to the NZB file of the release."""
+	if not files:
+		return
+	new = os.path.join(output_dir, rel.replace('"', '') + ".nzb")
+	doc = nzb_utils.empty_nzb_document()
+	if os.path.exists(new):
+		for nzbfile in nzb_utils.read_nzb(new):
+			nzb_utils.add_file(doc, nzbfile)
+	for rfile in files:
+		nzb_utils.add_file(doc, rfile)
+	nzb_utils.write_nzb(doc, new)
 
 def grab_base_name(filename):
 	# "invandraren-walla25.sfv" (1/1)
diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 903673e..f484332 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -170,6 +170,26 @@ def get_pretty_xml(document):
 def get_xml(document):
 	return document.toxml("UTF-8")
 
+def write_nzb(document, nzb_file):
+	""" Writes the whole document. A file that is already there keeps its old
+	content when this fails or gets interrupted. """
+	tmp_file = nzb_file + ".tmp"
+	try:
+		with open(tmp_file, "wb") as nzb:
+			nzb.write(get_xml(document))
+		try:
+			os.replace(tmp_file, nzb_file)
+		except AttributeError:  # Python < 3.3
+			if os.name == "nt" and os.path.isfile(nzb_file):
+				os.unlink(nzb_file)
+			os.rename(tmp_file, nzb_file)
+	except BaseException:
+		try:
+			os.unlink(tmp_file)
+		except OSError:
+			pass
+		raise
+
 def _date_to_posix(date):
 	""" date: datetime.datetime object """
 	posix = time.mktime(date.timetuple())
-- 
2.43.0


From 1e4a341c473da023c8ea3850e88440b6ec9c6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 76/89] fix: do not move NZB and SRR files over other files
 with the same name

---
 bin/srr_sort.py      | 12 ++++++++----
 usenet/nzb_rename.py | 20 ++++++++++----------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index b89efff..53f88c8 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -73,8 +73,8 @@ def check_repack(srr_file):
 	return False
 
 def check_nfos(srr_file):
+	nfo_count = 0
 	for block in RarReader(srr_file):
-		nfo_count = 0
 		if (block.rawtype == BlockType.SrrStoredFile and
 			block.file_name[-4:].lower() == ".nfo"):
 			nfo_count += 1
@@ -172,10 +172,14 @@ def check(srr_file):
 		if options.txt:
 			result |= check_for_ext(srr_file, ".txt")
 		if result and options.output_dir:
-			print("Moving %s." % srr_file)
 			srr_name = os.path.basename(srr_file)
-			# move the SRR to the given directory
-			os.renames(srr_file, os.path.join(options.output_dir, srr_name))
+			new_file = os.path.join(options.output_dir, srr_name)
+			if os.path.exists(new_file):
+				print("%s: already exists." % new_file)
+			else:
+				print("Moving %s." % srr_file)
+				# move the SRR to the given directory
+				os.renames(srr_file, new_file)
 		if result:
 			print(os.path.basename(srr_file))
 	except (EnvironmentError, Exception) as err:
diff --git a/usenet/nzb_rename.py b/usenet/nzb_rename.py
index dd9d513..d2dc58a 100644
--- a/usenet/nzb_rename.py
+++ b/usenet/nzb_rename.py
@@ -17,7 +17,6 @@
 import os
 import sys
 import optparse
-import shutil
 
 import nzb_utils
 import nzb_split
@@ -27,12 +26,11 @@ def main(options, args):
 	output_dir = os.path.join(input_dir, "processed")
 
 	# create output folders
-	try:
-		os.mkdir(output_dir)
-		os.mkdir(os.path.join(output_dir, "music"))
-		os.mkdir(os.path.join(output_dir, "other"))
-	except:
-		pass
+	for folder in ("music", "other"):
+		try:
+			os.makedirs(os.path.join(output_dir, folder))
+		except OSError:
+			pass
 
 	for nzb_file in os.listdir(input_dir):
 		f = os.path.join(input_dir, nzb_file)
@@ -43,9 +41,11 @@ def main(options, args):
 					odir = os.path.join(output_dir, "music")
 				else:
 					odir = os.path.join(output_dir, "other")
-				shutil.move(f, odir)
-				os.rename(os.path.join(odir, nzb_file),
-						os.path.join(odir, new_name + ".nzb"))
+				new_file = os.path.join(odir, new_name + ".nzb")
+				if os.path.exists(new_file):
+					print("%s: already exists." % new_file)
+				else:
+					os.rename(f, new_file)
 			except Exception as e:
 				print(e)
 		else:
-- 
2.43.0


From 4fc0d55e60dbd1c9a3ee8eccc53b420b1ac4559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 77/89] fix: do not move NZB files of a certain age over
 others, accept all encodings

---
 usenet/nzb_age.py | 10 +++++++---
 usenet/nzb_ue.py  |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/usenet/nzb_age.py b/usenet/nzb_age.py
index 488cc56..059d514 100644
--- a/usenet/nzb_age.py
+++ b/usenet/nzb_age.py
@@ -38,9 +38,9 @@ def main(options, args):
 			continue
 		date = None
 		# not parsing the whole file, just what we need
-		with open(os.path.join(process_dir, nzbfile), "r") as file:
+		with open(os.path.join(process_dir, nzbfile), "rb") as file:
 			for line in file.readlines():
-				match = re.match(r".* date=\"(\d+)\".*", line)
+				match = re.match(br".* date=\"(\d+)\".*", line)
 				if match:
 					date = datetime.datetime.fromtimestamp(int(match.group(1)))
 					break
@@ -49,7 +49,11 @@ def main(options, args):
 			if start < diff.days < end:
 				if options.output_dir:
 					old = os.path.join(process_dir, nzbfile)
-					os.renames(old, os.path.join(options.output_dir, nzbfile))
+					new = os.path.join(options.output_dir, nzbfile)
+					if os.path.exists(new):
+						print("%s: already exists." % new)
+					else:
+						os.renames(old, new)
 				else:
 					print(nzbfile)
 		else:
diff --git a/usenet/nzb_ue.py b/usenet/nzb_ue.py
index e5b5e3c..523730d 100644
--- a/usenet/nzb_ue.py
+++ b/usenet/nzb_ue.py
@@ -25,10 +25,10 @@ def main(options, args):
 		if not nzbfile.endswith(".nzb"):
 			continue
 
-		with open(os.path.join(nzbdir, nzbfile), "r") as file:
+		with open(os.path.join(nzbdir, nzbfile), "rb") as file:
 			for line in file.readlines():
 				match = re.match(
-					".* poster=\".*uncle eric.*", line)
+					b".* poster=\".*uncle eric.*", line)
 				if match:
 					print(nzbfile)
 					break
-- 
2.43.0


From dd3b5b54b6a54e798b5737c4a638531f0140ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 78/89] fix: batch creation of SRS files goes on after a
 failure and -n works

---
 bin/srs_batch.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bin/srs_batch.py b/bin/srs_batch.py
index 97fbbe2..47c7704 100644
--- a/bin/srs_batch.py
+++ b/bin/srs_batch.py
@@ -60,21 +60,26 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	if not os.path.isdir(dest_dir):
 		os.makedirs(dest_dir)
 
+	srs_name = os.path.splitext(sample_file)[0] + ".srs"
+	if keep and os.path.exists(os.path.join(dest_dir, srs_name)):
+		print("%s: already exists." % srs_name)
+		return
+
 	original_stderr = sys.stderr
 	txt_error_file = os.path.join(dest_dir, sample_file) + ".txt"
 	sys.stderr = open(txt_error_file, "wt")
 	keep_txt = False
 	try:
-		overwrite_param = "" if keep else "-y"
-		srsmain([sample, overwrite_param, "-o", dest_dir], True)
-	except ValueError:
+		srsmain([sample, "-y", "-o", dest_dir], True)
+	except Exception as error:
+		# the other samples can still be fine
+		sys.stderr.write("%s\n" % error)
 		keep_txt = True
-
-	sys.stderr.close()
-	if not keep_txt:
-		os.unlink(txt_error_file)
-
-	sys.stderr = original_stderr
+	finally:
+		sys.stderr.close()
+		sys.stderr = original_stderr
+		if not keep_txt:
+			os.unlink(txt_error_file)
 
 if __name__ == '__main__':
 	parser = optparse.OptionParser(
-- 
2.43.0


From c233043b8c8342dc8b5da21ed2a02f555fa0deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 79/89] fix: list the languages of subtitles only in the SRR
 file they are for

---
 bin/pyrescene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index cc5c0da..22cf991 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -693,6 +693,9 @@ def create_srr_for_subs(unrar, sfv, working_dir, release_dir):
 		pass  # the path already exists
 
 	idx_lang = os.path.join(working_dir, "languages.diz")
+	if os.path.isfile(idx_lang):
+		# not the languages of the subtitles from an other SFV file
+		os.remove(idx_lang)
 
 	# recursively create SRR and extract RARs
 	def extract_and_create_srr(folder, srr_out=None, first_rars=None):
-- 
2.43.0


From 46eba581028aa979361d4ff7c912141157abbbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:04 +0000
Subject: [PATCH 80/89] fix: accept the reference files of rerar

---
 rerar/rerar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index deb3b50..6594036 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -831,8 +831,8 @@ class Parser:
                 "Expected block CRC 0x{:04X}".format(calc_crc))
         return (pos, hdr, btype, flags)
     
-    def expect_type(self, pos, _btype, expect, name):
-        if expect != type:
+    def expect_type(self, pos, btype, expect, name):
+        if expect != btype:
             self.die(pos + HDR_TYPE_POS,
                 "Expected block type 0x{:02X} ({})".format(expect, name))
         
-- 
2.43.0


From 29453113b58604abe28bdbf110554d986e47337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 81/89] fix: rerar makes sets of a single volume

---
 rerar/rerar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 6594036..5e79ad0 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -307,7 +307,9 @@ Try "{} help".""".format(sys.argv[0]))
     vol_count = quanta(file_size, data_max)
     if base is None:
         base = os.path.splitext(intname)[0]
-    vol_digits = 1 + int(math.log10(vol_count - 1))
+    vol_digits = 1
+    if vol_count > 1:
+        vol_digits += int(math.log10(vol_count - 1))
     sfv_name = "{}.sfv".format(base)
     rls_size = 0
     
-- 
2.43.0


From 07e3db4ba910d2f3c9c4b7eac7243ba4250e9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 82/89] fix: rerar keeps the exact fraction of the time stamp

---
 rerar/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rerar/rar.py b/rerar/rar.py
index d614dff..be16f91 100644
--- a/rerar/rar.py
+++ b/rerar/rar.py
@@ -207,7 +207,7 @@ def time_encode(tm, frac=0):
 
     flags = 1 << TIME_VALID_BIT
     flags |= one_sec << TIME_ONE_BIT
-    frac = int(frac * 10 ** TIME_FRAC_DIGITS)
+    frac = round(frac * 10 ** TIME_FRAC_DIGITS)
 
     size = TIME_FRAC_BYTES
     while size > 0:
-- 
2.43.0


From 7fa19ee3e02ed33553be4775fbcc3a9eca13eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 83/89] fix: rerar names the volumes like the reference or as
 asked for

---
 rerar/rerar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 5e79ad0..aa6a830 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -255,7 +255,10 @@ base <grp-name>
         errors) = parse_ref(ref)
         
         # grab additional properties from the file
-        base = os.path.basename(os.path.splitext(ref)[0])
+        if base is None:
+            base = os.path.basename(os.path.splitext(ref)[0])
+            if naming_version >= 3:
+                base = re.sub(r"\.part\d+$", "", base)
         vol_max = os.path.getsize(ref)
         
         # TODO: don't overwrite, rename or make copy of ref rar
-- 
2.43.0


From 06bff12adf00f7627242977c5ad3b58d3f605c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 84/89] fix: rerar only replaces existing files when asked to
 overwrite

---
 rerar/rerar.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index aa6a830..fc247f7 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -331,8 +331,8 @@ Try "{} help".""".format(sys.argv[0]))
             os.mkdir(rls_name)
     
     Writer = DryRlsWriter if is_dryrun else RlsWriter
-    with Writer(file, version, host_os, is_rr, naming_version, newline) as (
-    rls):
+    with Writer(file, version, host_os, is_rr, naming_version, newline,
+    overwrite) as rls:
         start_ellipsis = True
         left = file_size
         while left > 0:
@@ -870,10 +870,13 @@ def fmt_size(size):
     return s
 
 class DryRlsWriter:
-    def __init__(self, _name, version, _host_os, _is_rr, _naming, newline):
+    def __init__(self, _name, version, _host_os, _is_rr, _naming, newline,
+    overwrite=False):
         self.version = version
         self.sfv_size = 0
         self.sfv_newline = newline
+        # never touch an existing file unless told to do so
+        self.mode = "w" if overwrite else "x"
     
     def __enter__(self):
         return self
@@ -891,9 +894,10 @@ class DryRlsWriter:
             head.count("\n") * (len(self.sfv_newline) - 1))
 
 class RlsWriter(DryRlsWriter):
-    def __init__(self, file, version, host_os, is_rr, naming, newline):
+    def __init__(self, file, version, host_os, is_rr, naming, newline,
+    overwrite=False):
         DryRlsWriter.__init__(self, file, version, host_os, is_rr, naming,
-            newline)
+            newline, overwrite)
         
         self.data = open(file, "rb")
         self.os = host_os
@@ -918,7 +922,8 @@ class RlsWriter(DryRlsWriter):
         DryRlsWriter.sfv_add(self, vol, name)
     
     def sfv_write(self, name, head):
-        with open(name, "wt", encoding="latin-1", newline="") as sfv:
+        with open(name, self.mode + "t", encoding="latin-1",
+        newline="") as sfv:
             sfv.write(head.replace("\n", self.sfv_newline))
             for entry in sorted(self.sfv_entries):
                 sfv.write("{} {:08x}{}".format(entry,
@@ -954,7 +959,7 @@ class DryVolWriter:
 
 class VolWriter(DryVolWriter):
     def __init__(self, rls, name):
-        self.file = open(name, "w+b")
+        self.file = open(name, rls.mode + "+b")
         DryVolWriter.__init__(self, rls)
     
     def __enter__(self):
-- 
2.43.0


From 49f625aa505f3f73d30d2059556d6534cb3c733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 85/89] fix: rerar reports a bad reference in its exit status

---
 rerar/rerar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index fc247f7..03e98e9 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -270,7 +270,7 @@ base <grp-name>
         print()
         
         if errors and not lenient:
-            raise SystemExit()
+            raise SystemExit("Bad reference file")
         if is_dryrun:
             return
     
-- 
2.43.0


From 409a8af3f66d092007a8d49bc77a2280e99f893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 86/89] fix: rerar does not wait forever for the rest of a
 short file

---
 rerar/rar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rerar/rar.py b/rerar/rar.py
index be16f91..51f36c5 100644
--- a/rerar/rar.py
+++ b/rerar/rar.py
@@ -88,6 +88,8 @@ pack_size=None):
     crc = 0 if split_after else accum_crc
     while left > 0:
         chunk = file.read(min(FILE_COPY_CRC_BUF, left))
+        if not chunk:
+            raise EOFError()
         left -= len(chunk)
         volume.write(chunk)
         crc = crc32(chunk, crc)
-- 
2.43.0


From 4dff54baa2d8c4f40fbcdabb407436c5ccde9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:45 +0000
Subject: [PATCH 87/89] fix: rerar does not read a truncated reference file
 forever

---
 rerar/rerar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 03e98e9..838fb19 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -555,7 +555,10 @@ def parse_ref(ref):
         if not split_after:
             left = pack_size
             while left > 0:
-                left -= len(parser.read(min(FILE_CRC_BUF, left)))
+                chunk = parser.read(min(FILE_CRC_BUF, left))
+                if not chunk:
+                    raise EOFError()
+                left -= len(chunk)
             
             print(" CRC: {:08X}".format(file_crc), end="",
                 file=sys.stderr)
-- 
2.43.0


From 848d261d1410e6b8c16d6f600638832c8b1ceaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:21 +0000
Subject: [PATCH 88/89] fix: rerar refuses volume sizes without room for any
 data

---
 rerar/rerar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 838fb19..0918efa 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -306,6 +306,8 @@ Try "{} help".""".format(sys.argv[0]))
     data_max -= len(RAR_ID) + MAIN_HDR_SIZE
     size_64 = size_64_encode(0, file_size)
     data_max -= file_hdr_size(name_field, xtime_field, size_64)
+    if data_max < 1:
+        raise SystemExit("Volume size {} too small".format(vol_max))
     
     vol_count = quanta(file_size, data_max)
     if base is None:
-- 
2.43.0


From f096535e669428c3d06a41b93b594b43024ae866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:24 +0000
Subject: [PATCH 89/89] fix: rerar can tell about bad recovery record sectors

---
 rerar/rerar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rerar/rerar.py b/rerar/rerar.py
index 0918efa..4496cc2 100644
--- a/rerar/rerar.py
+++ b/rerar/rerar.py
@@ -799,7 +799,7 @@ class Parser:
             read_crc = self.read(RR_CRC_SIZE)
             if read_crc != calc_crc:
                 self.error(pos, "Sector {} CRC mismatch; calculated "
-                    "0x{:04X}".format(i, S_SHORT.unpack(calc_crc)))
+                    "0x{:04X}".format(i, *S_SHORT.unpack(calc_crc)))
             
             crc = crc32(read_crc, crc)
         
-- 
2.43.0

