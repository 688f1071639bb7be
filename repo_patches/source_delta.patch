From 94f70d5ed934437de8f034115a4acd9177963421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 01/72] fix: make the read cache report end of file, and
 positions relative to where reading started

The cache answered with stale bytes after a short read, so truncated or failing
sources loaded successfully with wrong pixels (and loops waiting for the end of
the file never ended).  IL_SEEK_SET was relative to the start of the image in
the file while itell() was absolute, so loaders that go back to a remembered
position failed for images that do not start at offset 0.  Failing seeks now
queue an error, and memory lumps reject positions outside the lump.
---
 DevIL/src-IL/src/il_files.cpp | 226 ++++++++++++++++------------------
 1 file changed, 106 insertions(+), 120 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..a07be7a 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -57,7 +57,10 @@ void		(ILAPIENTRY *iclosewCopy)(ILHANDLE);
 
 ILboolean	UseCache = IL_FALSE;
 ILubyte		*Cache = NULL;
-ILuint		CacheSize, CachePos, CacheStartPos, CacheBytesRead;
+ILuint		CacheSize, CachePos, CacheStartPos;  // CacheSize: number of valid bytes in Cache
+ILuint		CacheCapacity;  // Number of bytes that are read at once
+
+static void iDropCache(void);
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -159,35 +162,23 @@ void ILAPIENTRY iDefaultCloseR(ILHANDLE Handle)
 
 ILboolean ILAPIENTRY iDefaultEof(ILHANDLE Handle)
 {
-	ILuint OrigPos, FileSize;
+	long OrigPos, FileSize;
 
 	// Find out the filesize for checking for the end of file
-	OrigPos = itell();
-	iseek(0, IL_SEEK_END);
-	FileSize = itell();
-	iseek(OrigPos, IL_SEEK_SET);
-
-	if (itell() >= FileSize)
+	OrigPos = ftell((FILE*)Handle);
+	if (OrigPos < 0 || fseek((FILE*)Handle, 0, SEEK_END) != 0)
 		return IL_TRUE;
-	return IL_FALSE;
+	FileSize = ftell((FILE*)Handle);
+	if (fseek((FILE*)Handle, OrigPos, SEEK_SET) != 0)
+		return IL_TRUE;
+
+	return (OrigPos >= FileSize) ? IL_TRUE : IL_FALSE;
 }
 
 
 ILint ILAPIENTRY iDefaultGetc(ILHANDLE Handle)
 {
-	ILint Val;
-
-	if (!UseCache) {
-		Val = fgetc((FILE*)Handle);
-		if (Val == IL_EOF)
-			ilSetError(IL_FILE_READ_ERROR);
-	}
-	else {
-		Val = 0;
-		if (iread(&Val, 1, 1) != 1)
-			return IL_EOF;
-	}
-	return Val;
+	return fgetc((FILE*)Handle);
 }
 
 
@@ -310,7 +301,8 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
-	ReadFileStart = itell();
+	iDropCache();  // Whatever is cached does not belong to this file.
+	ReadFileStart = TellRProc(FileRead);
 }
 
 
@@ -322,6 +314,7 @@ void iSetInputLump(const void *Lump, ILuint Size)
 	iread = iReadLump;
 	iseek = iSeekRLump;
 	itell = iTellRLump;
+	iDropCache();
 	ReadLump = Lump;
 	ReadLumpPos = 0;
 	ReadLumpSize = Size;
@@ -418,41 +411,45 @@ void ipad(ILuint NumZeros)
 
 ILboolean ILAPIENTRY iEofFile(void)
 {
-	return EofProc((FILE*)FileRead);
+	if (UseCache && CachePos < CacheSize)
+		return IL_FALSE;
+	return EofProc(FileRead);
 }
 
 
 ILboolean ILAPIENTRY iEofLump(void)
 {
-	if (ReadLumpSize)
-		return (ReadLumpPos >= ReadLumpSize);
-	return IL_FALSE;
+	return (ReadLumpPos >= ReadLumpSize);
 }
 
 
 ILint ILAPIENTRY iGetcFile(void)
 {
+	ILint Val;
+
 	if (!UseCache) {
-		return GetcProc(FileRead);
+		Val = GetcProc(FileRead);
 	}
-	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+	else {
+		if (CachePos >= CacheSize)
+			iPreCache(CacheCapacity);
+		if (UseCache)
+			Val = (CachePos < CacheSize) ? Cache[CachePos++] : IL_EOF;
+		else
+			Val = GetcProc(FileRead);
 	}
 
-	CacheBytesRead++;
-	return Cache[CachePos++];
+	if (Val == IL_EOF)
+		ilSetError(IL_FILE_READ_ERROR);
+	return Val;
 }
 
 
 ILint ILAPIENTRY iGetcLump(void)
 {
-	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
-	if (ReadLumpSize > 0) {
-		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_EOF;
-		}
+	if (ReadLumpPos >= ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
 	return *((ILubyte*)ReadLump + ReadLumpPos++);
@@ -463,48 +460,36 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 {
 	ILuint	TotalBytes = 0, BytesCopied;
 	ILuint	BuffSize = Size * Number;
-	ILuint	NumRead;
+	ILint	NumRead;
 
 	if (!UseCache) {
 		NumRead = ReadProc(Buffer, Size, Number, FileRead);
-		if (NumRead != Number)
+		if (NumRead < 0)
+			NumRead = 0;
+		if ((ILuint)NumRead != Number)
 			ilSetError(IL_FILE_READ_ERROR);
 		return NumRead;
 	}
 
-	/*if (Cache == NULL || CacheSize == 0) {  // Shouldn't happen, but we check anyway.
-		return ReadProc(Buffer, Size, Number, FileRead);
-	}*/
-
-	if (BuffSize < CacheSize - CachePos) {
-		memcpy(Buffer, Cache + CachePos, BuffSize);
-		CachePos += BuffSize;
-		CacheBytesRead += BuffSize;
-		if (Size != 0)
-			BuffSize /= Size;
-		return BuffSize;
-	}
-	else {
-		while (TotalBytes < BuffSize) {
-			// If loop through more than once, after first, CachePos is 0.
-			if (TotalBytes + CacheSize - CachePos > BuffSize)
-				BytesCopied = BuffSize - TotalBytes;
-			else
-				BytesCopied = CacheSize - CachePos;
-
-			memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
-			TotalBytes += BytesCopied;
-			CachePos += BytesCopied;
-			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
+	while (TotalBytes < BuffSize) {
+		if (CachePos >= CacheSize) {
+			iPreCache(CacheCapacity);
+			if (!UseCache) {  // No memory for the cache, so read the rest directly.
+				NumRead = ReadProc((ILubyte*)Buffer + TotalBytes, 1, BuffSize - TotalBytes, FileRead);
+				if (NumRead > 0)
+					TotalBytes += NumRead;
+				break;
 			}
+			if (CacheSize == 0)  // End of file or read error
+				break;
 		}
+
+		BytesCopied = IL_MIN(BuffSize - TotalBytes, CacheSize - CachePos);
+		memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
+		TotalBytes += BytesCopied;
+		CachePos += BytesCopied;
 	}
 
-	// DW: Changed on 12-27-2008.  Was causing the position to go too far if the
-	//     cache was smaller than the buffer.
-	//CacheBytesRead += TotalBytes;
-	CacheBytesRead = CachePos;
 	if (Size != 0)
 		TotalBytes /= Size;
 	if (TotalBytes != Number)
@@ -515,40 +500,40 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint i, ByteSize = IL_MIN( Size*Number, ReadLumpSize-ReadLumpPos);
+	ILuint ByteSize = IL_MIN(Size * Number, ReadLumpSize - ReadLumpPos);
 
-	for (i = 0; i < ByteSize; i++) {
-		*((ILubyte*)Buffer + i) = *((ILubyte*)ReadLump + ReadLumpPos + i);
-		if (ReadLumpSize > 0) {  // ReadLumpSize is too large to care about apparently
-			if (ReadLumpPos + i > ReadLumpSize) {
-				ReadLumpPos += i;
-				if (i != Number)
-					ilSetError(IL_FILE_READ_ERROR);
-				return i;
-			}
-		}
-	}
+	if (ByteSize > 0)
+		memcpy(Buffer, (ILubyte*)ReadLump + ReadLumpPos, ByteSize);
+	ReadLumpPos += ByteSize;
 
-	ReadLumpPos += i;
 	if (Size != 0)
-		i /= Size;
-	if (i != Number)
+		ByteSize /= Size;
+	if (ByteSize != Number)
 		ilSetError(IL_FILE_READ_ERROR);
-	return i;
+	return ByteSize;
+}
+
+
+static void iDropCache(void)
+{
+	ifree(Cache);
+	Cache = NULL;
+	CacheSize = CachePos = 0;
+	UseCache = IL_FALSE;
 }
 
 
 ILboolean iPreCache(ILuint Size)
 {
+	ILint NumRead;
+
 	// Reading from a memory lump, so don't cache.
 	if (iread == iReadLump) {
 		//iUnCache();  // DW: Removed 06-10-2002.
 		return IL_TRUE;
 	}
 
-	if (Cache) {
-		ifree(Cache);
-	}
+	iUnCache();  // Continue from the position that the last cache was read to.
 
 	if (Size == 0) {
 		Size = 1;
@@ -559,18 +544,13 @@ ILboolean iPreCache(ILuint Size)
 		return IL_FALSE;
 	}
 
-	UseCache = IL_FALSE;
 	CacheStartPos = itell();
-	CacheSize = iread(Cache, 1, Size);
-	if (CacheSize != Size)
-		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
-
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
-	CacheSize = Size;
+	// Fewer bytes than wanted just means that the end of the file is near.
+	NumRead = ReadProc(Cache, 1, Size, FileRead);
+	CacheSize = (NumRead > 0) ? NumRead : 0;
+	CacheCapacity = Size;
 	CachePos = 0;
 	UseCache = IL_TRUE;
-	CacheBytesRead = 0;
 
 	return IL_TRUE;
 }
@@ -578,6 +558,8 @@ ILboolean iPreCache(ILuint Size)
 
 void iUnCache()
 {
+	ILuint NumUsed, NumCached;
+
 	//changed 2003-09-01:
 	//make iUnCache smart enough to return if
 	//no cache is used
@@ -587,15 +569,12 @@ void iUnCache()
 	if (iread == iReadLump)
 		return;
 
-	CacheSize = 0;
-	CachePos = 0;
-	if (Cache) {
-		ifree(Cache);
-		Cache = NULL;
-	}
-	UseCache = IL_FALSE;
+	NumUsed = CachePos;
+	NumCached = CacheSize;
+	iDropCache();
 
-	iseek(CacheStartPos + CacheBytesRead, IL_SEEK_SET);
+	if (NumUsed != NumCached)
+		iseek(CacheStartPos + NumUsed, IL_SEEK_SET);
 
 	return;
 }
@@ -603,49 +582,56 @@ void iUnCache()
 
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
+	ILint Ret;
+
+	iUnCache();
 	if (Mode == IL_SEEK_SET)
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
-	return SeekRProc(FileRead, Offset, Mode);
+	Ret = SeekRProc(FileRead, Offset, Mode);
+	if (Ret != 0)
+		ilSetError(IL_FILE_READ_ERROR);
+	return Ret;
 }
 
 
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 {
+	ILint64 NewPos;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
-				return 1;
-			ReadLumpPos = Offset;
+			NewPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (ReadLumpPos + Offset > ReadLumpSize)
-				return 1;
-			ReadLumpPos += Offset;
+			NewPos = (ILint64)ReadLumpPos + Offset;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
-				return 1;
-			ReadLumpPos = ReadLumpSize + Offset;
+			NewPos = (ILint64)ReadLumpSize + Offset;
 			break;
 
 		default:
 			return 1;
 	}
 
+	if (NewPos < 0 || NewPos > ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return 1;
+	}
+	ReadLumpPos = (ILuint)NewPos;
+
 	return 0;
 }
 
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	if (UseCache)
+		return CacheStartPos + CachePos;
+	return TellRProc(FileRead) - ReadFileStart;  // Relative to the start, just like IL_SEEK_SET.
 }
 
 
-- 
2.43.0


From bac0beb8264e56fa3df1829d4d98bb57371acbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 02/72] fix: keep the newest errors in order when the error
 stack overflows

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From 0226d1a6aa429b66d21fa9c771ace27c4a271206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 03/72] fix: own the setting strings, reject out-of-range
 settings, and leave errors and hints alone when pushing attributes

---
 DevIL/src-IL/include/il_internal.h |   1 +
 DevIL/src-IL/src/il_stack.cpp      |   1 +
 DevIL/src-IL/src/il_states.cpp     | 223 ++++++++++++++++-------------
 3 files changed, 123 insertions(+), 102 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..e2c8560 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -179,6 +179,7 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					iFreeStates(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..6fad48a 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -666,6 +666,7 @@ void ILAPIENTRY ilShutDown()
 	ImageStack = NULL;
 	LastUsed = 0;
 	StackSize = 0;
+	iFreeStates();
 	IsInit = IL_FALSE;
 	return;
 }
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..4caee5c 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -40,9 +40,78 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_WBMP_EXT;
 
 
-//! Set all states to their defaults.
-void ilDefaultStates()
+//! Returns a copy of String that can be released with ifree, or NULL.
+static char *iCopyString(const char *String)
+{
+	char *Copy;
+
+	if (String == NULL)
+		return NULL;
+
+	Copy = (char*)ialloc(ilCharStrLen(String) + 1);
+	if (Copy != NULL)
+		memcpy(Copy, String, ilCharStrLen(String) + 1);
+
+	return Copy;
+}
+
+
+//! Replaces the string at *Dest with a copy of String, leaving it alone if there is no memory.
+static void iReplaceString(char **Dest, const char *String)
+{
+	char *Copy = iCopyString(String);
+
+	if (Copy == NULL)
+		return;
+
+	if (*Dest != NULL)
+		ifree(*Dest);
+	*Dest = Copy;
+}
+
+
+//! Frees all of the strings belonging to a set of states.
+static void iFreeStateStrings(IL_STATES *States)
+{
+	char **Strings[] = {
+		&States->ilTgaId,
+		&States->ilTgaAuthName,
+		&States->ilTgaAuthComment,
+		&States->ilPngAuthName,
+		&States->ilPngTitle,
+		&States->ilPngDescription,
+		&States->ilTifDescription,
+		&States->ilTifHostComputer,
+		&States->ilTifDocumentName,
+		&States->ilTifAuthName,
+		&States->ilCHeader,
+	};
+	ILuint i;
+
+	for (i = 0; i < sizeof(Strings) / sizeof(Strings[0]); i++) {
+		if (*Strings[i] != NULL)
+			ifree(*Strings[i]);
+		*Strings[i] = NULL;
+	}
+}
+
+
+//! Goes back to the bottom of the attribute stack and frees everything the states hold.
+void iFreeStates()
+{
+	ILuint i;
+
+	for (i = 0; i < IL_ATTRIB_STACK_MAX; i++)
+		iFreeStateStrings(&ilStates[i]);
+	ilCurrentPos = 0;
+}
+
+
+//! Sets the states of the current level of the attribute stack to their defaults.
+static void iDefaultLevel()
 {
+	iFreeStateStrings(&ilStates[ilCurrentPos]);
+
 	ilStates[ilCurrentPos].ilOriginSet = IL_FALSE;
 	ilStates[ilCurrentPos].ilOriginMode = IL_ORIGIN_LOWER_LEFT;
 	ilStates[ilCurrentPos].ilFormatSet = IL_FALSE;
@@ -70,20 +139,6 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilPngAlphaIndex = -1;
 	ilStates[ilCurrentPos].ilVtfCompression = IL_DXT_NO_COMP;
 
-	ilStates[ilCurrentPos].ilTgaId = NULL;
-	ilStates[ilCurrentPos].ilTgaAuthName = NULL;
-	ilStates[ilCurrentPos].ilTgaAuthComment = NULL;
-	ilStates[ilCurrentPos].ilPngAuthName = NULL;
-	ilStates[ilCurrentPos].ilPngTitle = NULL;
-	ilStates[ilCurrentPos].ilPngDescription = NULL;
-
-	//2003-09-01: added tiff strings
-	ilStates[ilCurrentPos].ilTifDescription = NULL;
-	ilStates[ilCurrentPos].ilTifHostComputer = NULL;
-	ilStates[ilCurrentPos].ilTifDocumentName = NULL;
-	ilStates[ilCurrentPos].ilTifAuthName = NULL;
-	ilStates[ilCurrentPos].ilCHeader = NULL;
-
 	ilStates[ilCurrentPos].ilQuantMode = IL_WU_QUANT;
 	ilStates[ilCurrentPos].ilNeuSample = 15;
 	ilStates[ilCurrentPos].ilQuantMaxIndexs = 256;
@@ -91,9 +146,13 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilKeepDxtcData = IL_FALSE;
 	ilStates[ilCurrentPos].ilUseNVidiaDXT = IL_FALSE;
 	ilStates[ilCurrentPos].ilUseSquishDXT = IL_FALSE;
+}
 
 
-
+//! Set all states to their defaults.
+void ilDefaultStates()
+{
+	iDefaultLevel();
 
 	ilHints.MemVsSpeedHint = IL_FASTEST;
 	ilHints.CompressHint = IL_USE_COMPRESSION;
@@ -158,13 +217,15 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 
 	Length = ilCharStrLen(String);  //ilStrLen(String);
+	if (Length > MaxLen)
+		Length = MaxLen;
 
 	Clipped = (char*)ialloc((MaxLen + 1) * sizeof(char) /*sizeof(ILchar)*/);  // Terminating NULL makes it +1.
 	if (Clipped == NULL) {
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
@@ -464,6 +525,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
@@ -644,7 +706,7 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              *Param = ilGetBppPal(Image->Pal.PalType);
              break;
         case IL_PALETTE_NUM_COLS:
-             if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE)
+             if (!Image->Pal.Palette || !Image->Pal.PalSize || ilGetBppPal(Image->Pal.PalType) == 0)
                   *Param = 0;
              else
                   *Param = Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType);
@@ -654,14 +716,19 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
              }
@@ -778,7 +845,7 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 
 	//	memcpy(&ilStates[ilCurrentPos], &ilStates[ilCurrentPos - 1], sizeof(IL_STATES));
 
-	ilDefaultStates();
+	iDefaultLevel();
 
 	if (Bits & IL_ORIGIN_BIT) {
 		ilStates[ilCurrentPos].ilOriginMode = ilStates[ilCurrentPos-1].ilOriginMode;
@@ -814,50 +881,23 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilJpgFormat = ilStates[ilCurrentPos-1].ilJpgFormat;
 		ilStates[ilCurrentPos].ilDxtcFormat = ilStates[ilCurrentPos-1].ilDxtcFormat;
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
 
 		// Strings
-		if (ilStates[ilCurrentPos].ilTgaId)
-			ifree(ilStates[ilCurrentPos].ilTgaId);
-		if (ilStates[ilCurrentPos].ilTgaAuthName)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-		if (ilStates[ilCurrentPos].ilTgaAuthComment)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-		if (ilStates[ilCurrentPos].ilPngAuthName)
-			ifree(ilStates[ilCurrentPos].ilPngAuthName);
-		if (ilStates[ilCurrentPos].ilPngTitle)
-			ifree(ilStates[ilCurrentPos].ilPngTitle);
-		if (ilStates[ilCurrentPos].ilPngDescription)
-			ifree(ilStates[ilCurrentPos].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		if (ilStates[ilCurrentPos].ilTifDescription)
-			ifree(ilStates[ilCurrentPos].ilTifDescription);
-		if (ilStates[ilCurrentPos].ilTifHostComputer)
-			ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-		if (ilStates[ilCurrentPos].ilTifDocumentName)
-			ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-		if (ilStates[ilCurrentPos].ilTifAuthName)
-			ifree(ilStates[ilCurrentPos].ilTifAuthName);
-
-		if (ilStates[ilCurrentPos].ilCHeader)
-			ifree(ilStates[ilCurrentPos].ilCHeader);
-
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
-
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		ilStates[ilCurrentPos].ilTgaId = iCopyString(ilStates[ilCurrentPos-1].ilTgaId);
+		ilStates[ilCurrentPos].ilTgaAuthName = iCopyString(ilStates[ilCurrentPos-1].ilTgaAuthName);
+		ilStates[ilCurrentPos].ilTgaAuthComment = iCopyString(ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		ilStates[ilCurrentPos].ilPngAuthName = iCopyString(ilStates[ilCurrentPos-1].ilPngAuthName);
+		ilStates[ilCurrentPos].ilPngTitle = iCopyString(ilStates[ilCurrentPos-1].ilPngTitle);
+		ilStates[ilCurrentPos].ilPngDescription = iCopyString(ilStates[ilCurrentPos-1].ilPngDescription);
+		ilStates[ilCurrentPos].ilTifDescription = iCopyString(ilStates[ilCurrentPos-1].ilTifDescription);
+		ilStates[ilCurrentPos].ilTifHostComputer = iCopyString(ilStates[ilCurrentPos-1].ilTifHostComputer);
+		ilStates[ilCurrentPos].ilTifDocumentName = iCopyString(ilStates[ilCurrentPos-1].ilTifDocumentName);
+		ilStates[ilCurrentPos].ilTifAuthName = iCopyString(ilStates[ilCurrentPos-1].ilTifAuthName);
+		ilStates[ilCurrentPos].ilCHeader = iCopyString(ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
@@ -876,6 +916,7 @@ void ILAPIENTRY ilPopAttrib()
 	}
 
 	// Should we check here to see if ilCurrentPos is too large?
+	iFreeStateStrings(&ilStates[ilCurrentPos]);
 	ilCurrentPos--;
 
 	return;
@@ -958,62 +999,40 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 	switch (Mode)
 	{
 		case IL_TGA_ID_STRING:
-			if (ilStates[ilCurrentPos].ilTgaId)
-				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaId, String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthName)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthComment)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilPngAuthName)
-				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, String);
 			break;
 		case IL_PNG_TITLE_STRING:
-			if (ilStates[ilCurrentPos].ilPngTitle)
-				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilPngDescription)
-				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilTifDescription)
-				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
-			if (ilStates[ilCurrentPos].ilTifHostComputer)
-				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
-						if (ilStates[ilCurrentPos].ilTifDocumentName)
-				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTifAuthName)
-				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
-			if (ilStates[ilCurrentPos].ilCHeader)
-				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilCHeader, String);
 			break;
 
 		default:
@@ -1067,31 +1086,31 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 		case IL_IMAGE_DURATION:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->Duration = Param;
 			return;
 		case IL_IMAGE_OFFX:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->OffX = Param;
 			return;
 		case IL_IMAGE_OFFY:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->OffY = Param;
 			return;
 		case IL_IMAGE_CUBEFLAGS:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
@@ -1101,7 +1120,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || (Param >= IL_3DC && Param <= IL_DXT1A)) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1125,13 +1144,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
@@ -1186,7 +1205,7 @@ ILint iGetInt(ILenum Mode)
 	err = ilGetError();
 	if (r == -1 && err == IL_INVALID_ENUM)
 		ilSetError(IL_INTERNAL_ERROR);
-	else
+	else if (err != IL_NO_ERROR)
 		ilSetError(err); //restore error
 
 	return r;
-- 
2.43.0


From 5e64f791260fc1255b688c0fea16b9696c604f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 04/72] fix: image stack keeps its bindings when memory runs
 out, reuses only free names, frees all chains without recursing and links new
 mipmaps and layers through their own chain

---
 DevIL/src-IL/src/il_stack.cpp | 163 +++++++++++++++++++---------------
 1 file changed, 91 insertions(+), 72 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 6fad48a..6b41b56 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -61,19 +61,32 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 			return;
 
 	do {
+		// Names that were deleted and then bound again are in use.
+		while (FreeNames != NULL && ImageStack[FreeNames->Name] != NULL) {
+			TempFree = (iFree*)FreeNames->Next;
+			ifree(FreeNames);
+			FreeNames = TempFree;
+		}
+
+		Images[Index] = 0;
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
+                        ILimage *NewImage = ilNewImage(1, 1, 1, 1, 1);
+                        if (NewImage == NULL)
+				continue;
                         TempFree = (iFree*)FreeNames->Next;
                         Images[Index] = FreeNames->Name;
-                        ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
+                        ImageStack[FreeNames->Name] = NewImage;
                         ifree(FreeNames);
                         FreeNames = TempFree;
 		} else {
                         if (LastUsed >= StackSize)
 				if (!iEnlargeStack())
-					return;
-			Images[Index] = LastUsed;
+					continue;
 			// Must be all 1's instead of 0's, because some functions would divide by 0.
 			ImageStack[LastUsed] = ilNewImage(1, 1, 1, 1, 1);
+			if (ImageStack[LastUsed] == NULL)
+				continue;
+			Images[Index] = LastUsed;
 			LastUsed++;
 		}
 	} while (++Index < Num);
@@ -83,7 +96,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 
 ILuint ILAPIENTRY ilGenImage()
 {
-    ILuint i;
+    ILuint i = 0;
     ilGenImages(1,&i);
     return i;
 }
@@ -106,6 +119,8 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 
 	if (ImageStack[Image] == NULL) {
 		ImageStack[Image] = ilNewImage(1, 1, 1, 1, 1);
+		if (ImageStack[Image] == NULL)
+			return;
 		if (Image >= LastUsed) // >= ?
 			LastUsed = Image + 1;
 	}
@@ -160,7 +175,7 @@ void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 			// Add to head of list - works for empty and non-empty lists
 			Temp = (iFree*)ialloc(sizeof(iFree));
 			if (!Temp) {
-				return;
+				continue;  // The name just does not get reused.
 			}
 			Temp->Name = Images[Index];
 			Temp->Next = FreeNames;
@@ -199,62 +214,52 @@ ILboolean ILAPIENTRY ilIsImage(ILuint Image)
 }
 
 
-//! Closes Image and frees all memory associated with it.
-ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
+// Puts Chain in front of Rest, where both are linked through Next.
+static ILimage *iPrependChain(ILimage *Chain, ILimage *Rest)
 {
-	if (Image == NULL)
-		return;
+	ILimage *Last = Chain;
 
-	if (Image->Data != NULL) {
-		ifree(Image->Data);
-		Image->Data = NULL;
-	}
+	if (Chain == NULL)
+		return Rest;
 
-	if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
-		Image->Pal.Palette = NULL;
-	}
+	while (Last->Next != NULL)
+		Last = Last->Next;
+	Last->Next = Rest;
 
-	if (Image->Next != NULL) {
-		ilCloseImage(Image->Next);
-		Image->Next = NULL;
-	}
+	return Chain;
+}
 
-	if (Image->Faces != NULL) {
-		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
-	}
 
-	if (Image->Mipmaps != NULL) {
-		ilCloseImage(Image->Mipmaps);
-		Image->Mipmaps = NULL;
-	}
+//! Closes Image and frees all memory associated with it.
+ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
+{
+	ILimage *Rest;
 
-	if (Image->Layers != NULL) {
-		ilCloseImage(Image->Layers);
-		Image->Layers = NULL;
-	}
+	// The chains can be long, so this does not recurse.
+	while (Image != NULL) {
+		Rest = Image->Next;
+		Rest = iPrependChain(Image->Faces, Rest);
+		Rest = iPrependChain(Image->Mipmaps, Rest);
+		Rest = iPrependChain(Image->Layers, Rest);
 
-	if (Image->AnimList != NULL && Image->AnimSize != 0) {
-		ifree(Image->AnimList);
-		Image->AnimList = NULL;
-	}
+		if (Image->Data != NULL)
+			ifree(Image->Data);
 
-	if (Image->Profile != NULL && Image->ProfileSize != 0) {
-		ifree(Image->Profile);
-		Image->Profile = NULL;
-		Image->ProfileSize = 0;
-	}
+		if (Image->Pal.Palette != NULL)
+			ifree(Image->Pal.Palette);
 
-	if (Image->DxtcData != NULL && Image->DxtcFormat != IL_DXT_NO_COMP) {
-		ifree(Image->DxtcData);
-		Image->DxtcData = NULL;
-		Image->DxtcFormat = IL_DXT_NO_COMP;
-		Image->DxtcSize = 0;
-	}
+		if (Image->AnimList != NULL)
+			ifree(Image->AnimList);
+
+		if (Image->Profile != NULL)
+			ifree(Image->Profile);
+
+		if (Image->DxtcData != NULL)
+			ifree(Image->DxtcData);
 
-	ifree(Image);
-	Image = NULL;
+		ifree(Image);
+		Image = Rest;
+	}
 
 	return;
 }
@@ -457,7 +462,7 @@ ILboolean ILAPIENTRY ilActiveLayer(ILuint Number)
 
 ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 {
-	ILimage	*SubImage;
+	ILimage	*First, *SubImage, *NewImage;
 	ILuint	Count ;  // Create one before we go in the loop.
 
 	if (iCurImage == NULL) {
@@ -471,24 +476,8 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 	switch (Type)
 	{
 		case IL_SUB_NEXT:
-			if (iCurImage->Next)
-				ilCloseImage(iCurImage->Next);
-			iCurImage->Next = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Next;
-			break;
-
 		case IL_SUB_MIPMAP:
-			if (iCurImage->Mipmaps)
-				ilCloseImage(iCurImage->Mipmaps);
-			iCurImage->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Mipmaps;
-			break;
-
 		case IL_SUB_LAYER:
-			if (iCurImage->Layers)
-				ilCloseImage(iCurImage->Layers);
-			iCurImage->Layers = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Layers;
 			break;
 
 		default:
@@ -496,15 +485,41 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 			return IL_FALSE;
 	}
 
+	First = SubImage = ilNewImage(1, 1, 1, 1, 1);
 	if (SubImage == NULL) {
 		return 0;
 	}
 
 	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
-		if (SubImage == NULL)
-			return Count;
+		NewImage = ilNewImage(1, 1, 1, 1, 1);
+		if (NewImage == NULL)
+			break;
+		// Each kind of sub-image is linked through its own member.
+		if (Type == IL_SUB_NEXT)
+			SubImage->Next = NewImage;
+		else if (Type == IL_SUB_MIPMAP)
+			SubImage->Mipmaps = NewImage;
+		else
+			SubImage->Layers = NewImage;
+		SubImage = NewImage;
+	}
+
+	switch (Type)
+	{
+		case IL_SUB_NEXT:
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = First;
+			break;
+
+		case IL_SUB_MIPMAP:
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = First;
+			break;
+
+		case IL_SUB_LAYER:
+			ilCloseImage(iCurImage->Layers);
+			iCurImage->Layers = First;
+			break;
 	}
 
 	return Count;
@@ -592,9 +607,11 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	ILimage **NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*));
+	if (NewStack == NULL) {
 		return IL_FALSE;
 	}
+	ImageStack = NewStack;
 	StackSize += I_STACK_INCREMENT;
 	return IL_TRUE;
 }
@@ -664,6 +681,8 @@ void ILAPIENTRY ilShutDown()
 	if (ImageStack)
 		ifree(ImageStack);
 	ImageStack = NULL;
+	iCurImage = NULL;
+	CurName = 0;
 	LastUsed = 0;
 	StackSize = 0;
 	iFreeStates();
-- 
2.43.0


From 33ed2bcbaff341d7c8ae3c625a4ae77b017bb67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 05/72] fix: image creation, copying, cloning and blitting
 leave the image and binding intact on failure and stay inside both images

---
 DevIL/src-IL/src/il_devil.cpp | 414 +++++++++++++++++++++-------------
 1 file changed, 252 insertions(+), 162 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..ee24907 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -16,20 +16,49 @@
 #include <limits.h>
 
 
+// Checks that the size in bytes of an image fits in an ILuint.
+static ILboolean iValidSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
+{
+	ILuint Factors[] = { Bpp, Bpc, Height, Depth };
+	ILuint64 Size = Width;
+	ILuint i;
+
+	for (i = 0; i < sizeof(Factors) / sizeof(Factors[0]); i++) {
+		if (Factors[i] != 0 && Size > UINT_MAX / Factors[i])
+			return IL_FALSE;
+		Size *= Factors[i];
+	}
+
+	return IL_TRUE;
+}
+
+
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0) {
+	ILubyte *NewData;
+
+	if (BpcType == 0 || Bpp == 0) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	memset(Image, 0, sizeof(ILimage));
-
 	////
 	if (Width  == 0) Width = 1;
 	if (Height == 0) Height = 1;
 	if (Depth  == 0) Depth = 1;
+
+	if (!iValidSize(Width, Height, Depth, Bpp, BpcType)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+	NewData = (ILubyte*)ialloc(Width * Bpp * BpcType * Height * Depth);
+	if (NewData == NULL) {
+		return IL_FALSE;
+	}
+
+	memset(Image, 0, sizeof(ILimage));
+
 	Image->Width	   = Width;
 	Image->Height	   = Height;
 	Image->Depth	   = Depth;
@@ -45,10 +74,7 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 	Image->DxtcFormat  = IL_DXT_NO_COMP;
 	Image->DxtcData    = NULL;
 
-	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
-	if (Image->Data == NULL) {
-		return IL_FALSE;
-	}
+	Image->Data = NewData;
 
 	if (Data != NULL) {
 		memcpy(Image->Data, Data, Image->SizeOfData);
@@ -74,9 +100,6 @@ ILAPI ILimage* ILAPIENTRY ilNewImage(ILuint Width, ILuint Height, ILuint Depth,
 	}
 
 	if (!ilInitImage(Image, Width, Height, Depth, Bpp, ilGetFormatBpp(Bpp), ilGetTypeBpc(Bpc), NULL)) {
-		if (Image->Data != NULL) {
-			ifree(Image->Data);
-		}
 		ifree(Image);
 		return NULL;
 	}
@@ -100,9 +123,6 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	}
 
 	if (!ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data)) {
-		if (Image->Data != NULL) {
-			ifree(Image->Data);
-		}
 		ifree(Image);
 		return NULL;
 	}
@@ -132,15 +152,21 @@ ILboolean ILAPIENTRY ilTexImage(ILuint Width, ILuint Height, ILuint Depth, ILuby
 // Internal version of ilTexImage.
 ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
+	ILimage NewImage;
+
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// Build the new image first, so that a failure leaves the old one alone.
+	if (!ilInitImage(&NewImage, Width, Height, Depth, Bpp, Format, Type, Data))
+		return IL_FALSE;
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette) {
 		ifree(Image->Pal.Palette);
 	}
 
@@ -162,7 +188,9 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 	return IL_FALSE;
 	}*/
 
-	return ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	*Image = NewImage;
+
+	return IL_TRUE;
 }
 
 
@@ -193,17 +221,21 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	ILimage* layers;
 	ILenum flags;
 	ILenum origin;
-	ILboolean retval;
+	ILimage NewImage;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// Build the new image first, so that a failure leaves the old one alone.
+	if (!ilInitImage(&NewImage, Width, Height, Depth, Bpp, Format, Type, Data))
+		return IL_FALSE;
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette) {
 		ifree(Image->Pal.Palette);
 	}
 
@@ -227,7 +259,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	flags = Image->CubeFlags;
 	origin = Image->Origin;
 
-	retval = ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	*Image = NewImage;
 
 	// reset our chains
 	Image->Mipmaps = mips;
@@ -237,7 +269,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	Image->CubeFlags = flags;
 	Image->Origin = origin;
 
-	return retval;
+	return IL_TRUE;
 }
 
 
@@ -374,7 +406,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
 					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -391,6 +422,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 				case IL_LUMINANCE_ALPHA:
 					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					break;
 					
 				case IL_COLOUR_INDEX:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
@@ -424,7 +456,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
 					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
 					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -475,7 +506,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
 					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
 					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -525,7 +555,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[2] = ClearRed;
 					FloatPtr[1] = ClearGreen;
 					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -541,7 +570,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					
 				case IL_LUMINANCE_ALPHA:
 					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[1] = ClearAlpha;
 					break;
 					
 				case IL_COLOUR_INDEX:
@@ -575,7 +604,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[2] = ClearRed;
 					DblPtr[1] = ClearGreen;
 					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -691,22 +719,21 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		}
 	}
 	else {
+		ILubyte *Palette = (ILubyte*)ialloc(4);
+		if (Palette == NULL) {
+			return IL_FALSE;
+		}
+
 		imemclear(Image->Data, Image->SizeOfData);
 		
 		if (Image->Pal.Palette)
 			ifree(Image->Pal.Palette);
-		Image->Pal.Palette = (ILubyte*)ialloc(4);
-		if (Image->Pal.Palette == NULL) {
-			return IL_FALSE;
-		}
+		Image->Pal.Palette = Palette;
 		
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		ilGetClear(Image->Pal.Palette, IL_RGBA, IL_UNSIGNED_BYTE);
 	}
 	
 	return IL_TRUE;
@@ -718,29 +745,96 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 {
 	ILuint	Width, Height, Depth;
 	ILuint	Dest;
+	ILimage	*DestImage;
 	
 	Dest = ilGetCurName();
+	DestImage = iCurImage;
 	ilBindImage(Source);
+	if (iCurImage == NULL || ilGetCurName() != Source)
+		return IL_FALSE;
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
+	iCurImage = DestImage;  // Could be a sub-image.
 
 	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
 }
 
+// Gives the end of the part of an extent that lies inside of both images.
+static ILint64 iClipExtent(ILuint Extent, ILint DestPos, ILuint DestExtent, ILuint SrcPos, ILuint SrcExtent)
+{
+	ILint64 End = Extent;
+
+	if (End > (ILint64)DestExtent - DestPos)
+		End = (ILint64)DestExtent - DestPos;
+	if (End > (ILint64)SrcExtent - SrcPos)
+		End = (ILint64)SrcExtent - SrcPos;
+
+	return End;
+}
+
+
+// Gives where in the data of Image the row is that is Row rows below the top.
+static ILuint iRowFromTop(ILimage *Image, ILuint Row)
+{
+	return Image->Origin == IL_ORIGIN_LOWER_LEFT ? Image->Height - 1 - Row : Row;
+}
+
+
+static ILdouble iGetChannel(const ILubyte *Data, ILenum Type)
+{
+	switch (Type)
+	{
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			return *(ILushort*)Data;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			return *(ILuint*)Data;
+		case IL_FLOAT:
+			return *(ILfloat*)Data;
+		case IL_DOUBLE:
+			return *(ILdouble*)Data;
+	}
+	return *Data;
+}
+
+
+static void iSetChannel(ILubyte *Data, ILenum Type, ILdouble Value)
+{
+	switch (Type)
+	{
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			*(ILushort*)Data = (ILushort)Value;
+			return;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			*(ILuint*)Data = (ILuint)Value;
+			return;
+		case IL_FLOAT:
+			*(ILfloat*)Data = (ILfloat)Value;
+			return;
+		case IL_DOUBLE:
+			*(ILdouble*)Data = Value;
+			return;
+	}
+	*Data = (ILubyte)Value;
+}
+
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
                                            ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint 		x, y, z, ConvBps, ConvSizePlane;
+	ILint64		x, y, z;
+	ILuint 		Bpc, ConvBps, ConvSizePlane;
 	ILimage 	*Dest,*Src;
 	ILubyte 	*Converted;
 	ILuint		DestName = ilGetCurName();
 	ILuint		c;
-	ILuint		StartX, StartY, StartZ;
-	ILboolean	DestFlipped = IL_FALSE;
-	ILubyte 	*SrcTemp;
-	ILfloat		Back;
+	ILint64		StartX, StartY, StartZ, EndX, EndY, EndZ;
+	ILdouble	Back;
 
 	// Check if the desiination image really exists
 	if (DestName == 0 || iCurImage == NULL) {
@@ -749,89 +843,61 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	}
 	Dest = iCurImage;
 	
-	// set the destination image to upper left origin
-	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {  // Dest
-		DestFlipped = IL_TRUE;
-		ilFlipImage();
-	}
-	//DestOrigin = Dest->Origin;
 	ilBindImage(Source);
 	
 	// Check if the source image really exists
-	if (iCurImage == NULL) {
+	if (iCurImage == NULL || ilGetCurName() != Source) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 	
 	Src = iCurImage;
-	
-	//@TODO test if coordinates are inside the images (hard limit for source)
-	
-	// set the source image to upper left origin
-	if (Src->Origin == IL_ORIGIN_LOWER_LEFT)
-	{
-		SrcTemp = iGetFlipped(iCurImage);
-		if (SrcTemp == NULL)
-		{
-			ilBindImage(DestName);
-			if (DestFlipped)
-				ilFlipImage();
-			return IL_FALSE;
-		}
-	}
-	else
-	{
-		SrcTemp = iCurImage->Data;
-	}
+	ilBindImage(DestName);
+	iCurImage = Dest;  // Could be a sub-image.
 	
 	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
+	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, Src->Data);
 	if (Converted == NULL)
 		return IL_FALSE;
 	
-	ConvBps 	  = Dest->Bpp * Src->Width;
+	Bpc 		  = Dest->Bpc;
+	ConvBps 	  = Dest->Bpp * Bpc * Src->Width;
 	ConvSizePlane = ConvBps   * Src->Height;
 	
-	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
-	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
+	// Limit the copy to what lies inside of both images
+	StartX = DestX >= 0 ? 0 : -(ILint64)DestX;
+	StartY = DestY >= 0 ? 0 : -(ILint64)DestY;
+	StartZ = DestZ >= 0 ? 0 : -(ILint64)DestZ;
+	EndX = iClipExtent(Width,  DestX, Dest->Width,  SrcX, Src->Width);
+	EndY = iClipExtent(Height, DestY, Dest->Height, SrcY, Src->Height);
+	EndZ = iClipExtent(Depth,  DestZ, Dest->Depth,  SrcZ, Src->Depth);
 	
 	//@TODO: non funziona con rgba
 	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
 		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
+		for (z = StartZ; z < EndZ; z++) {
+			for (y = StartY; y < EndY; y++) {
+				for (x = StartX; x < EndX; x++) {
+					// Rows are counted from the top in both images.
+					const ILuint  SrcRow   = iRowFromTop(Src, y+SrcY);
+					const ILuint  DestRow  = iRowFromTop(Dest, y+DestY);
+					ILubyte *SrcPixel  = Converted + (z+SrcZ)*ConvSizePlane + SrcRow*ConvBps + (x+SrcX)*Dest->Bpp*Bpc;
+					ILubyte *DestPixel = Dest->Data + (z+DestZ)*Dest->SizeOfPlane + DestRow*Dest->Bps + (x+DestX)*Dest->Bpp*Bpc;
+					ILdouble Front = iGetChannel(SrcPixel + bpp_without_alpha * Bpc, Dest->Type);
+
 					switch (Dest->Type)
 					{
 						case IL_BYTE:
 						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
+							Front /= IL_MAX_UNSIGNED_BYTE;
 							break;
 						case IL_SHORT:
 						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
+							Front /= IL_MAX_UNSIGNED_SHORT;
 							break;
 						case IL_INT:
 						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
-							break;
-						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
-							break;
-						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
+							Front /= IL_MAX_UNSIGNED_INT;
 							break;
 					}
 					Back = 1.0f - Front;
@@ -839,40 +905,28 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 					if (ilIsEnabled(IL_BLIT_BLEND)) {
 						for (c = 0; c < bpp_without_alpha; c++)
 						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
+							iSetChannel(DestPixel + c * Bpc, Dest->Type,
+								iGetChannel(SrcPixel + c * Bpc, Dest->Type) * Front
+											+ iGetChannel(DestPixel + c * Bpc, Dest->Type) * Back);
 						}
 					}
 					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
+						memcpy(DestPixel, SrcPixel, Dest->Bpp * Bpc);
 					}
 				}
 			}
 		}
 	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
-				}
+		for( z = StartZ; z < EndZ; z++ ) {
+			for( y = StartY; y < EndY; y++ ) {
+				if (StartX < EndX)
+					memcpy(Dest->Data + (z+DestZ)*Dest->SizeOfPlane + iRowFromTop(Dest, y+DestY)*Dest->Bps + (StartX+DestX)*Dest->Bpp*Bpc,
+						Converted + (z+SrcZ)*ConvSizePlane + iRowFromTop(Src, y+SrcY)*ConvBps + (StartX+SrcX)*Dest->Bpp*Bpc,
+						(size_t)(EndX - StartX) * Dest->Bpp * Bpc);
 			}
 		}
 	}
 	
-	if (SrcTemp != iCurImage->Data)
-		ifree(SrcTemp);
-	
-	ilBindImage(DestName);
-	if (DestFlipped)
-		ilFlipImage();
-	
 	ifree(Converted);
 	
 	return IL_TRUE;
@@ -954,18 +1008,43 @@ ILboolean iCopySubImages(ILimage *Dest, ILimage *Src)
 }
 
 
+// Makes *Dest a copy of Size bytes at Src, or NULL if there is nothing to copy.
+static ILboolean iCopyBlock(void **Dest, const void *Src, ILuint Size)
+{
+	*Dest = NULL;
+	if (Src == NULL || Size == 0)
+		return IL_TRUE;
+
+	*Dest = ialloc(Size);
+	if (*Dest == NULL)
+		return IL_FALSE;
+	memcpy(*Dest, Src, Size);
+
+	return IL_TRUE;
+}
+
+
 // Copies everything but the Data from Src to Dest.
 ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 {
+	ILuint *AnimList = NULL;
+	ILubyte *Profile = NULL, *Palette = NULL;
+
 	if (Dest == NULL || Src == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 	
-	if (Dest->Pal.Palette && Dest->Pal.PalSize && Dest->Pal.PalType != IL_PAL_NONE) {
-		ifree(Dest->Pal.Palette);
-		Dest->Pal.Palette = NULL;
+	// Make all of the copies first, so that a failure leaves Dest alone.
+	if (!iCopyBlock((void**)&AnimList, Src->AnimList, Src->AnimSize * sizeof(ILuint)) ||
+		!iCopyBlock((void**)&Profile, Src->Profile, Src->ProfileSize) ||
+		!iCopyBlock((void**)&Palette, Src->Pal.Palette, Src->Pal.PalSize)) {
+		ifree(AnimList);
+		ifree(Profile);
+		ifree(Palette);
+		return IL_FALSE;
 	}
+
 	if (Dest->Faces) {
 		ilCloseImage(Dest->Faces);
 		Dest->Faces = NULL;
@@ -982,43 +1061,19 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		ilCloseImage(Dest->Next);
 		Dest->Next = NULL;
 	}
-	if (Dest->Profile) {
-		ifree(Dest->Profile);
-		Dest->Profile = NULL;
-		Dest->ProfileSize = 0;
-	}
 	if (Dest->DxtcData) {
 		ifree(Dest->DxtcData);
 		Dest->DxtcData = NULL;
 		Dest->DxtcFormat = IL_DXT_NO_COMP;
 		Dest->DxtcSize = 0;
 	}
-	
-	if (Src->AnimList && Src->AnimSize) {
-		Dest->AnimList = (ILuint*)ialloc(Src->AnimSize * sizeof(ILuint));
-		if (Dest->AnimList == NULL) {
-			return IL_FALSE;
-		}
-		memcpy(Dest->AnimList, Src->AnimList, Src->AnimSize * sizeof(ILuint));
-	}
-	if (Src->Profile) {
-		Dest->Profile = (ILubyte*)ialloc(Src->ProfileSize);
-		if (Dest->Profile == NULL) {
-			return IL_FALSE;
-		}
-		memcpy(Dest->Profile, Src->Profile, Src->ProfileSize);
-		Dest->ProfileSize = Src->ProfileSize;
-	}
-	if (Src->Pal.Palette) {
-		Dest->Pal.Palette = (ILubyte*)ialloc(Src->Pal.PalSize);
-		if (Dest->Pal.Palette == NULL) {
-			return IL_FALSE;
-		}
-		memcpy(Dest->Pal.Palette, Src->Pal.Palette, Src->Pal.PalSize);
-	}
-	else {
-		Dest->Pal.Palette = NULL;
-	}
+	ifree(Dest->AnimList);
+	Dest->AnimList = AnimList;
+	ifree(Dest->Profile);
+	Dest->Profile = Profile;
+	Dest->ProfileSize = Profile ? Src->ProfileSize : 0;
+	ifree(Dest->Pal.Palette);
+	Dest->Pal.Palette = Palette;
 	
 	Dest->Pal.PalSize = Src->Pal.PalSize;
 	Dest->Pal.PalType = Src->Pal.PalType;
@@ -1035,7 +1090,7 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 	Dest->Origin = Src->Origin;
 	Dest->Duration = Src->Duration;
 	Dest->CubeFlags = Src->CubeFlags;
-	Dest->AnimSize = Src->AnimSize;
+	Dest->AnimSize = AnimList ? Src->AnimSize : 0;
 	Dest->OffX = Src->OffX;
 	Dest->OffY = Src->OffY;
 	
@@ -1047,7 +1102,7 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 {
 	ILuint DestName = ilGetCurName();
-	ILimage *DestImage = iCurImage, *SrcImage;
+	ILimage *DestImage = iCurImage, *SrcImage, *NewImage;
 	
 	if (iCurImage == NULL || DestName == 0) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -1055,10 +1110,27 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 	}
 	
 	ilBindImage(Src);
+	if (ilGetCurName() != Src)
+		return IL_FALSE;
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
+	iCurImage = DestImage;  // Could be a sub-image.
+
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+
+	// The image data is the last thing that can fail, so that a failure leaves the destination alone.
+	NewImage = ilCopyImage_(SrcImage);
+	if (NewImage == NULL)
+		return IL_FALSE;
+	if (!ilCopyImageAttr(DestImage, SrcImage)) {
+		ilCloseImage(NewImage);
+		return IL_FALSE;
+	}
+	ifree(DestImage->Data);
+	DestImage->Data = NewImage->Data;
+	NewImage->Data = NULL;
+	ilCloseImage(NewImage);
 	
 	return IL_TRUE;
 }
@@ -1079,10 +1151,13 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
-	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
+	if (Src->Data != NULL)
+		memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
 	return Dest;
 }
@@ -1090,8 +1165,9 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id = 0, OldName = ilGetCurName();
 	ILimage *CurImage;
+	ILboolean Copied;
 	
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -1105,10 +1181,17 @@ ILuint ILAPIENTRY ilCloneCurImage()
 	CurImage = iCurImage;
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	Copied = ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
+	if (Copied)
+		Copied = ilCopyImageAttr(iCurImage, CurImage);
 	
+	ilBindImage(OldName);
 	iCurImage = CurImage;
+
+	if (!Copied) {
+		ilDeleteImages(1, &Id);
+		return 0;
+	}
 	
 	return Id;
 }
@@ -1117,13 +1200,25 @@ ILuint ILAPIENTRY ilCloneCurImage()
 // Like ilTexImage but doesn't destroy the palette.
 ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
 {
+	ILubyte *NewData;
+
 	if (Image == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 	
+	if (!iValidSize(Width, Height, Depth, Bpp, Bpc)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+	NewData = (ILubyte*)ialloc(Bpp * Bpc * Width * Height * Depth);
+	if (NewData == NULL) {
+		return IL_FALSE;
+	}
+	
 	if (Image->Data != NULL)
 		ifree(Image->Data);
+	Image->Data = NewData;
 	
 	Image->Depth = Depth;
 	Image->Width = Width;
@@ -1134,10 +1229,5 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 	Image->SizeOfPlane = Image->Bps * Height;
 	Image->SizeOfData = Image->SizeOfPlane * Depth;
 	
-	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
-	if (Image->Data == NULL) {
-		return IL_FALSE;
-	}
-	
 	return IL_TRUE;
 }
-- 
2.43.0


From 2bd698e66c93c3bcc3cfaf53cbd584b0bd900ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 06/72] fix: il_convert/il_convbuff/il_manip: bounds,
 allocation failures and whole-chain conversion

Palettes with fewer than 256 entries, volumes, key colours and failed
allocations were read or written past their buffers; a conversion that
failed half way left some sub-images converted.
---
 DevIL/src-IL/src/il_convbuff.cpp |  25 ++++-
 DevIL/src-IL/src/il_convert.cpp  | 183 +++++++++++++++++++------------
 DevIL/src-IL/src/il_devil.cpp    |   2 +-
 DevIL/src-IL/src/il_manip.cpp    |  34 ++++--
 DevIL/src-IL/src/il_pal.cpp      |   8 +-
 DevIL/src-IL/src/il_utility.cpp  |   4 +-
 6 files changed, 163 insertions(+), 93 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..d0ef2d8 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -52,6 +52,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		return NULL;
 	}
 
+	if (SrcFormat == IL_COLOUR_INDEX && DestFormat != SrcFormat && SrcPal == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return NULL;
+	}
+
 	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
 	if (Data == NULL)
 		return NULL;
@@ -61,9 +66,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 
 	if (DestFormat == SrcFormat) {
 		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
-		if (NewData == NULL) {
-			return IL_FALSE;
-		}
+		CHECK_ALLOC();
 		memcpy(NewData, Data, NumPix * BpcDest);
 		if (Data != Buffer)
 			ifree(Data);
@@ -73,6 +76,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 
 	// Colour-indexed images are special here
 	if (SrcFormat == IL_COLOUR_INDEX) {
+		if (Data != Buffer)
+			ifree(Data);
+
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 		if (PalImage == NULL)
@@ -88,6 +94,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		PalImage->Type = IL_UNSIGNED_BYTE;
 		PalImage->Data = (ILubyte*)Buffer;
 		PalImage->Bpp = 1;
+		PalImage->Bpc = 1;
 		PalImage->SizeOfData = SizeOfData;
 
 		// Convert the paletted image to a different format.
@@ -102,8 +109,10 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 
 		// Set TempImage->Data to NULL so that we can preserve it via NewData, or
 		//  else it would get wiped out by ilCloseImage.
-		NewData = TempImage->Data;
-		TempImage->Data = NULL;
+		Data = iSwitchTypes(TempImage->SizeOfData, IL_UNSIGNED_BYTE, DestType, TempImage->Data);
+		NewData = (ILubyte*)Data;
+		if (NewData == TempImage->Data)
+			TempImage->Data = NULL;
 		// So that we do not delete the original palette or data.
 		PalImage->Pal.Palette = NULL;
 		PalImage->Data = NULL;
@@ -414,7 +423,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					memset(NewData, 0, NumPix * BpcDest / 3);
 					break;
 
 				default:
@@ -1995,6 +2004,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 		return IL_FALSE;
 	}
 
+	// Only the signedness differs, or there is nothing better to do.
+	if (BpcSrc == BpcDest)
+		memcpy(NewData, Buffer, Size * BpcDest);
+
 	switch (DestType)
 	{
 		case IL_UNSIGNED_BYTE:
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..dbe74ae 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -18,8 +18,8 @@
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 {
 	static const ILfloat LumFactor[3] = { 0.212671f, 0.715160f, 0.072169f };  // http://www.inforamp.net/~poynton/ and libpng's libpng.txt - Used for conversion to luminance.
-	ILimage		*NewImage = NULL, *CurImage = NULL;
-	ILuint		i, j, k, c, Size, LumBpp = 1;
+	ILimage		*NewImage = NULL, *CurImage = iCurImage;
+	ILuint		i, j, k, c, Size, NumCols, LumBpp = 1;
 	ILfloat		Resultf;
 	ILubyte		*Temp = NULL;
 	ILboolean	Converted;
@@ -30,38 +30,42 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return IL_FALSE;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
-
-	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
+	if (!Image->Pal.Palette || !Image->Pal.PalSize || ilGetBppPal(Image->Pal.PalType) == 0 || Image->Bpp != 1) {
 		ilCloseImage(NewImage);
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		return NULL;
+	}
+
+	Size = ilGetBppPal(Image->Pal.PalType);
+	// Whole entries only, and no more than the indices can reach.
+	NumCols = IL_MIN(Image->Pal.PalSize / Size, 256);
+
 	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
 		if (DestFormat == IL_LUMINANCE_ALPHA)
 			LumBpp = 2;
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			case IL_PAL_RGB24:
 			case IL_PAL_RGB32:
 			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)icalloc(LumBpp, 256);
 				if (Temp == NULL)
 					goto alloc_error;
 
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
+				for (i = 0, k = 0; i < NumCols * Size; i += Size, k += LumBpp) {
 					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
+					for (c = 0; c < 3; c++) {
 						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_RGBA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -73,19 +77,18 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			case IL_PAL_BGR24:
 			case IL_PAL_BGR32:
 			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)icalloc(LumBpp, 256);
 				if (Temp == NULL)
 					goto alloc_error;
 
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
+				for (i = 0, k = 0; i < NumCols * Size; i += Size, k += LumBpp) {
 					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
+					for (c = 0; c < 3; c++, j--) {
 						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_BGRA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -95,13 +98,15 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 				break;
 		}
 
+		ifree(NewImage->Pal.Palette);
 		NewImage->Pal.Palette = NULL;
 		NewImage->Pal.PalSize = 0;
 		NewImage->Pal.PalType = IL_PAL_NONE;
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
 		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
@@ -123,10 +128,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return NewImage;
 	}
 	else if (DestFormat == IL_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			// Opaque, so all the values are 0xFF.
 			case IL_PAL_RGB24:
@@ -139,33 +141,33 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			case IL_PAL_BGRA32:
 			case IL_PAL_RGBA32:
 				HasAlpha = IL_TRUE;
-				Temp = (ILubyte*)ialloc(1 * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)icalloc(1, 256);
 				if (Temp == NULL)
 					goto alloc_error;
 
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += 1) {
+				for (i = 0, k = 0; i < NumCols * Size; i += Size, k += 1) {
 					Temp[k] = Image->Pal.Palette[i + 3];
 				}
 
 				break;
 		}
 
+		ifree(NewImage->Pal.Palette);
 		NewImage->Pal.Palette = NULL;
 		NewImage->Pal.PalSize = 0;
 		NewImage->Pal.PalType = IL_PAL_NONE;
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
 		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
 
 		if (HasAlpha) {
 			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
+				NewImage->Data[i] = Temp[Image->Data[i]];
 			}
 		}
 		else {  // No alpha, opaque.
@@ -211,27 +213,22 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 
 		case IL_COLOUR_INDEX:
 			// Just copy the original image over.
-			NewImage->Data = (ILubyte*)ialloc(CurImage->SizeOfData);
+			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
 			if (NewImage->Data == NULL)
 				goto alloc_error;
-			NewImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (NewImage->Pal.Palette == NULL)
-				goto alloc_error;
-			memcpy(NewImage->Data, CurImage->Data, CurImage->SizeOfData);
-			memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
-			NewImage->Pal.PalSize = Image->Pal.PalSize;
-			NewImage->Pal.PalType = Image->Pal.PalType;
+			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 			ilSetCurImage(CurImage);
 			return NewImage;
 
 		default:
+			ilSetCurImage(CurImage);
 			ilCloseImage(NewImage);
 			ilSetError(IL_INVALID_CONVERSION);
 			return NULL;
 	}
 
 	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
+	Converted = Converted && ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
 
 	// ilConvertPal already sets the error message - no need to confuse the user.
 	if (!Converted) {
@@ -243,7 +240,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
 		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+			NewImage->Data[i * NewImage->Bpp + c] = Image->Data[i] < NumCols ? NewImage->Pal.Palette[Image->Data[i] * Size + c] : 0;
 		}
 	}
 
@@ -302,13 +299,12 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 
 		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -335,7 +331,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			return NULL;
 		}
 
-		ilCopyImageAttr(NewImage, Image);
+		if (!ilCopyImageAttr(NewImage, Image)) {
+			ifree(NewImage);
+			return NULL;
+		}
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -345,25 +344,29 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 
 		if (DestFormat == IL_COLOUR_INDEX && Image->Format == IL_LUMINANCE) {
+			ifree(NewImage->Pal.Palette);
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
 				NewImage->Pal.Palette[i * 3 + 2] = i;
 			}
-			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, Image->Format, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
 				ilCloseImage(NewImage);
 				return NULL;
 			}
-			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 		}
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
-				ifree(NewImage);  // ilCloseImage not needed.
+				ilCloseImage(NewImage);
 				return NULL;
 			}
 		}
@@ -382,7 +385,7 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 	\return Boolean value of failure or success*/
 ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 {
-	ILimage *Image, *pCurImage;
+	ILimage *Image, *Images, *Keyed, **Last, *pCurImage;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -399,16 +402,38 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		}
 	}
 
-	if (ilIsEnabled(IL_USE_KEY_COLOUR)) {
-		ilAddAlphaKey(iCurImage);
+	// Convert the whole chain before changing any of it, so that it is left alone on failure.
+	Images = NULL;
+	Last = &Images;
+	for (pCurImage = iCurImage; pCurImage != NULL; pCurImage = pCurImage->Next)
+	{
+		Keyed = NULL;
+		if (pCurImage == iCurImage && ilIsEnabled(IL_USE_KEY_COLOUR)) {
+			Keyed = ilCopyImage_(pCurImage);
+			if (Keyed != NULL) {
+				iCurImage = Keyed;
+				ilAddAlphaKey(Keyed);
+				iCurImage = pCurImage;
+			}
+			*Last = Keyed ? iConvertImage(Keyed, DestFormat, DestType) : NULL;
+			ilCloseImage(Keyed);
+		}
+		else {
+			*Last = iConvertImage(pCurImage, DestFormat, DestType);
+		}
+		if (*Last == NULL) {
+			ilCloseImage(Images);
+			return IL_FALSE;
+		}
+		Last = &(*Last)->Next;
 	}
 
 	pCurImage = iCurImage;
 	while (pCurImage != NULL)
 	{
-		Image = iConvertImage(pCurImage, DestFormat, DestType);
-		if (Image == NULL)
-			return IL_FALSE;
+		Image = Images;
+		Images = Images->Next;
+		Image->Next = NULL;
 
 		//ilCopyImageAttr(pCurImage, Image);  // Destroys subimages.
 
@@ -421,7 +446,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		pCurImage->Bps = pCurImage->Width * pCurImage->Bpc * pCurImage->Bpp;
 		pCurImage->SizeOfPlane = pCurImage->Bps * pCurImage->Height;
 		pCurImage->SizeOfData = pCurImage->Depth * pCurImage->SizeOfPlane;
-		if (pCurImage->Pal.Palette && pCurImage->Pal.PalSize && pCurImage->Pal.PalType != IL_PAL_NONE)
+		if (pCurImage->Pal.Palette)
 			ifree(pCurImage->Pal.Palette);
 		pCurImage->Pal.Palette = Image->Pal.Palette;
 		pCurImage->Pal.PalSize = Image->Pal.PalSize;
@@ -443,7 +468,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
 {
-	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height;
+	ILuint		i = 0, Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	ILbyte		PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, Temp;
@@ -575,10 +600,10 @@ ILboolean ilAddAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height / iCurImage->Bpc;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp + 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -661,11 +686,10 @@ ILboolean ilAddAlpha()
 }
 
 
-//ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
+static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
         KeyRed		= Red;
 	KeyGreen	= Green;
 	KeyBlue		= Blue;
@@ -678,11 +702,11 @@ void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclamp
 //	making the image transparent where Key is equal to the pixel.
 ILboolean ilAddAlphaKey(ILimage *Image)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
         ILubyte		*NewData, NewBpp;
 	ILfloat		KeyColour[3];
 	ILuint		i = 0, j = 0, c, Size;
 	ILboolean	Same;
+	ILimage		*Converted;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -706,11 +730,11 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			KeyColour[2] = KeyBlue;
 		}
 
-		Size = Image->Bps * Image->Height / Image->Bpc;
+		Size = Image->SizeOfData / Image->Bpc;
 
 		NewBpp = (ILubyte)(Image->Bpp + 1);
 		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height);
+		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
 		if (NewData == NULL) {
 			return IL_FALSE;
 		}
@@ -846,7 +870,7 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			return IL_FALSE;
 		}
 
-		if ((ILuint)(KeyAlpha * UCHAR_MAX) > Size) {
+		if ((ILuint)(KeyAlpha * UCHAR_MAX) >= Size) {
 			ilSetError(IL_INVALID_VALUE);
 			return IL_FALSE;
 		}
@@ -875,10 +899,22 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 
 		// @TODO: Check if this is the required behaviour.
 
-		if (Image->Pal.PalType == IL_PAL_RGBA32)
-			ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			ilConvertImage(IL_BGRA, IL_UNSIGNED_BYTE);
+		Converted = iConvertPalette(Image, Image->Pal.PalType == IL_PAL_RGBA32 ? IL_RGBA : IL_BGRA);
+		if (Converted == NULL)
+			return IL_FALSE;
+
+		Image->Format = Converted->Format;
+		Image->Bpp = Converted->Bpp;
+		Image->Bps = Converted->Bps;
+		Image->SizeOfPlane = Converted->SizeOfPlane;
+		Image->SizeOfData = Converted->SizeOfData;
+		ifree(Image->Pal.Palette);
+		Image->Pal = Converted->Pal;
+		Converted->Pal.Palette = NULL;
+		ifree(Image->Data);
+		Image->Data = Converted->Data;
+		Converted->Data = NULL;
+		ilCloseImage(Converted);
 	}
 
 	return IL_TRUE;
@@ -902,10 +938,10 @@ ILboolean ilRemoveAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp - 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -1071,7 +1107,7 @@ etc. are not fixed, but at the moment no images of this type can
 be loaded anyway. Thanks to Chris Lux for pointing this out.
 */
 
-ILboolean ilFixImage()
+static ILboolean iFixImages()
 {
 	ILuint NumFaces,  f;
 	ILuint NumImages, i;
@@ -1119,7 +1155,16 @@ ILboolean ilFixImage()
 			}
 		}
 	}
-	ilBindImage(ilGetCurName());
 
 	return IL_TRUE;
 }
+
+
+ILboolean ilFixImage()
+{
+	ILboolean Fixed = iFixImages();
+
+	ilBindImage(ilGetCurName());  // Set to parent image again.
+
+	return Fixed;
+}
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index ee24907..f6b9ef3 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -856,7 +856,7 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	iCurImage = Dest;  // Could be a sub-image.
 	
 	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, Src->Data);
+	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, &Src->Pal, Src->Data);
 	if (Converted == NULL)
 		return IL_FALSE;
 	
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..dc44d0f 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -383,6 +383,11 @@ ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
 	ILuint	x, c, NewBps, NewOff, PixBpp;
 	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
 
+	if (XOff >= iCurImage->Width) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			TempData = iGetFlipped(iCurImage);
@@ -393,7 +398,7 @@ ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width) {
+	if (iCurImage->Width - XOff < Width) {
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	}
 	else {
@@ -420,6 +425,11 @@ ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height,
 	ILuint	x, y, c, NewBps, DataBps, NewXOff, NewHeight, PixBpp;
 	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
 
+	if (XOff >= iCurImage->Width || YOff >= iCurImage->Height) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			TempData = iGetFlipped(iCurImage);
@@ -430,12 +440,12 @@ ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height,
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (iCurImage->Width - XOff < Width)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
+	if (iCurImage->Height - YOff < Height)
 		NewHeight = iCurImage->Height - YOff;
 	else
 		NewHeight = Height;
@@ -465,6 +475,11 @@ ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, IL
 	ILuint	x, y, z, c, NewBps, DataBps, NewSizePlane, NewH, NewD, NewXOff, PixBpp;
 	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
 
+	if (XOff >= iCurImage->Width || YOff >= iCurImage->Height || ZOff >= iCurImage->Depth) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			TempData = iGetFlipped(iCurImage);
@@ -475,23 +490,23 @@ ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, IL
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (iCurImage->Width - XOff < Width)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
+	if (iCurImage->Height - YOff < Height)
 		NewH = iCurImage->Height - YOff;
 	else
 		NewH = Height;
 
-	if (iCurImage->Depth < ZOff + Depth)
+	if (iCurImage->Depth - ZOff < Depth)
 		NewD = iCurImage->Depth - ZOff;
 	else
 		NewD = Depth;
 
 	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
+	NewSizePlane = DataBps * Height;
 
 	NewXOff = XOff * PixBpp;
 
@@ -623,6 +638,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 	if (TempData != iCurImage->Data) {
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
+		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);  // It has been flipped.
 	}
 
 	return IL_TRUE;
@@ -680,6 +696,7 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 	if (TempData != iCurImage->Data) {
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
+		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);  // It has been flipped.
 	}
 
 	return IL_TRUE;
@@ -750,6 +767,7 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 	if (TempData != iCurImage->Data) {
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
+		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);  // It has been flipped.
 	}
 
 	return IL_TRUE;
@@ -914,6 +932,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..428abb9 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -858,14 +858,8 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 	ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = Pal->PalSize;
 	iCurImage->Pal.PalType = Pal->PalType;
+	iCurImage->Pal.Palette = Pal->Palette;
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
 	ifree(Pal);
 	
 	return IL_TRUE;
diff --git a/DevIL/src-IL/src/il_utility.cpp b/DevIL/src-IL/src/il_utility.cpp
index e52480d..aae95bb 100644
--- a/DevIL/src-IL/src/il_utility.cpp
+++ b/DevIL/src-IL/src/il_utility.cpp
@@ -151,8 +151,7 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 	const ILuint blocks = size/block_size;
 	ILuint i;
 
-	ILubyte *block = (ILubyte*)ialloc(block_size);
-	if(block == NULL) return;
+	ILubyte block[4096];
 	for( i = 0; i < blocks; i++ ) {
 		memcpy(block,s1,block_size);
 		memcpy(s1,s2,block_size);
@@ -166,6 +165,5 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 		memcpy(s1,s2,i);
 		memcpy(s2,block,i);
 	}
-	ifree(block);
 	return;
 }
-- 
2.43.0


From 66da81f554fff6aa3af4a150b84cef153c62136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 07/72] fix: a save is only reported as successful when
 everything was written

Failed writes, seeks and closes and full memory buffers went unnoticed,
sizes were reported relative to the wrong start, and saving a Targa
changed the current image, leaked its strings and marked the rows as
top to bottom after writing them bottom to top.
---
 DevIL/src-IL/include/il_files.h  |   4 +
 DevIL/src-IL/src/il_exr.cpp      |   3 +-
 DevIL/src-IL/src/il_files.cpp    | 122 +++++++++++++++++++++----------
 DevIL/src-IL/src/il_internal.cpp |   2 +-
 DevIL/src-IL/src/il_io.cpp       | 104 +++++++++++++++++---------
 DevIL/src-IL/src/il_mng.cpp      |   3 +-
 DevIL/src-IL/src/il_rawdata.cpp  |  20 ++++-
 DevIL/src-IL/src/il_size.cpp     |  44 ++++++-----
 DevIL/src-IL/src/il_targa.cpp    | 102 ++++++++++----------------
 DevIL/src-IL/src/il_tiff.cpp     |   3 +-
 10 files changed, 244 insertions(+), 163 deletions(-)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index 20701f9..8dae72e 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -60,6 +60,10 @@ __FILES_EXTERN ILuint			(ILAPIENTRY *itell)(void);
 __FILES_EXTERN void				iSetOutputFile(ILHANDLE File);
 __FILES_EXTERN void				iSetOutputLump(void *Lump, ILuint Size);
 __FILES_EXTERN void				iSetOutputFake(void);
+__FILES_EXTERN void				iResetWriteStatus(void);
+__FILES_EXTERN void				iSetWriteFailed(void);
+__FILES_EXTERN ILboolean		iWriteStatus(void);
+__FILES_EXTERN ILuint			iWriteSize(void);
 __FILES_EXTERN void				(ILAPIENTRY *iclosew)(ILHANDLE);
 __FILES_EXTERN ILHANDLE			(ILAPIENTRY *iopenw)(ILconst_string);
 __FILES_EXTERN ILint			(ILAPIENTRY *iputc)(ILubyte Char);
diff --git a/DevIL/src-IL/src/il_exr.cpp b/DevIL/src-IL/src/il_exr.cpp
index bbb3978..8cbb60f 100644
--- a/DevIL/src-IL/src/il_exr.cpp
+++ b/DevIL/src-IL/src/il_exr.cpp
@@ -372,8 +372,9 @@ ILuint ilSaveExrF(ILHANDLE File)
 //! Writes a Exr to a memory "lump"
 ILuint ilSaveExrL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveExrInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index a07be7a..f82d83a 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -39,7 +39,9 @@ ILHANDLE	FileRead = NULL, FileWrite = NULL;
 const void *ReadLump = NULL;
 void 		*WriteLump = NULL;
 ILuint		ReadLumpPos = 0, ReadLumpSize = 0, ReadFileStart = 0, WriteFileStart = 0;
-ILuint		WriteLumpPos = 0, WriteLumpSize = 0;
+ILuint		WriteLumpPos = 0, WriteLumpSize = 0, WriteLumpEnd = 0;
+ILuint		WriteFilePos = 0, WriteFileEnd = 0;
+ILboolean	WriteFailed = IL_FALSE;  // Set when anything could not be written since iResetWriteStatus().
 
 fGetcProc	GetcProcCopy;
 fReadProc	ReadProcCopy;
@@ -230,7 +232,9 @@ ILHANDLE ILAPIENTRY iDefaultOpenW(ILconst_string FileName)
 
 void ILAPIENTRY iDefaultCloseW(ILHANDLE Handle)
 {
-	fclose((FILE*)Handle);
+	// Buffered data may only be written now.
+	if (fclose((FILE*)Handle) != 0)
+		iSetWriteFailed();
 	return;
 }
 
@@ -321,6 +325,34 @@ void iSetInputLump(const void *Lump, ILuint Size)
 }
 
 
+// To be called before anything is written; iWriteStatus() then tells whether all of it was.
+void iResetWriteStatus(void)
+{
+	WriteFailed = IL_FALSE;
+	WriteLumpEnd = WriteFileEnd = 0;
+}
+
+
+void iSetWriteFailed(void)
+{
+	WriteFailed = IL_TRUE;
+	ilSetError(IL_FILE_WRITE_ERROR);
+}
+
+
+ILboolean iWriteStatus(void)
+{
+	return !WriteFailed;
+}
+
+
+// Number of bytes between the start and the end of everything written to the current file or lump
+ILuint iWriteSize(void)
+{
+	return WriteLump ? WriteLumpEnd : WriteFileEnd;
+}
+
+
 // Tells DevIL that we're writing to a file, not a lump
 void iSetOutputFile(ILHANDLE File)
 {
@@ -334,6 +366,8 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFileStart = TellWProc(FileWrite);
+	WriteFilePos = WriteFileEnd = 0;
 }
 
 
@@ -362,7 +396,7 @@ void iSetOutputLump(void *Lump, ILuint Size)
 	itellw = iTellWLump;
 	iwrite = iWriteLump;
 	WriteLump = Lump;
-	WriteLumpPos = 0;
+	WriteLumpPos = WriteLumpEnd = 0;
 	WriteLumpSize = Size;
 }
 
@@ -382,7 +416,7 @@ ILuint ILAPIENTRY ilprintf(const char *Line, ...)
 	ILuint	i;
 
 	va_start(VaLine, Line);
-	vsprintf(Buffer, Line, VaLine);
+	vsnprintf(Buffer, sizeof(Buffer), Line, VaLine);
 	va_end(VaLine);
 
 	i = ilCharStrLen(Buffer);
@@ -657,15 +691,22 @@ const ILubyte* ILAPIENTRY iGetLump(void) {
 
 ILint ILAPIENTRY iPutcFile(ILubyte Char)
 {
-	return PutcProc(Char, FileWrite);
+	ILint Ret = PutcProc(Char, FileWrite);
+
+	if (Ret == IL_EOF) {
+		iSetWriteFailed();
+		return Ret;
+	}
+	if (++WriteFilePos > WriteFileEnd)
+		WriteFileEnd = WriteFilePos;
+	return Ret;
 }
 
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
-	if (WriteLumpPos >= WriteLumpSize)
+	if (iWriteLump(&Char, 1, 1) != 1)
 		return IL_EOF;  // IL_EOF
-	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
 	return Char;
 }
 
@@ -675,9 +716,12 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint NumWritten;
 	NumWritten = WriteProc(Buffer, Size, Number, FileWrite);
 	if (NumWritten != Number) {
-		ilSetError(IL_FILE_WRITE_ERROR);
+		iSetWriteFailed();
 		return 0;
 	}
+	WriteFilePos += Size * Number;
+	if (WriteFilePos > WriteFileEnd)
+		WriteFileEnd = WriteFilePos;
 	return NumWritten;
 }
 
@@ -685,71 +729,75 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 {
 	ILuint SizeBytes = Size * Number;
-	ILuint i = 0;
-
-	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i;
-			}
-		}
-
-		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
+	ILuint Copied = IL_MIN(SizeBytes, WriteLumpSize - WriteLumpPos);
+
+	if (Copied > 0) {
+		if (WriteLumpPos > WriteLumpEnd)  // Skipped by seeking
+			memset((ILubyte*)WriteLump + WriteLumpEnd, 0, WriteLumpPos - WriteLumpEnd);
+		memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, Copied);
+		WriteLumpPos += Copied;
+		if (WriteLumpPos > WriteLumpEnd)
+			WriteLumpEnd = WriteLumpPos;
 	}
 
-	WriteLumpPos += SizeBytes;
-	
-	return SizeBytes;
+	if (Copied != SizeBytes) {
+		iSetWriteFailed();
+		return Copied / Size;
+	}
+	return Number;
 }
 
 
 ILint ILAPIENTRY iSeekWFile(ILint Offset, ILuint Mode)
 {
+	ILint Ret;
+
 	if (Mode == IL_SEEK_SET)
 		Offset += WriteFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
-	return SeekWProc(FileWrite, Offset, Mode);
+	Ret = SeekWProc(FileWrite, Offset, Mode);
+	if (Ret != 0)
+		iSetWriteFailed();
+	WriteFilePos = iTellWFile();
+	return Ret;
 }
 
 
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 {
+	ILint64 NewPos;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
-				return 1;
-			WriteLumpPos = Offset;
+			NewPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (WriteLumpPos + Offset > WriteLumpSize)
-				return 1;
-			WriteLumpPos += Offset;
+			NewPos = (ILint64)WriteLumpPos + Offset;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
-				return 1;
-			WriteLumpPos = WriteLumpSize + Offset;
+			NewPos = (ILint64)WriteLumpEnd + Offset;
 			break;
 
 		default:
 			return 1;
 	}
 
+	if (NewPos < 0 || NewPos > WriteLumpSize) {
+		iSetWriteFailed();
+		return 1;
+	}
+	WriteLumpPos = (ILuint)NewPos;
+
 	return 0;
 }
 
 
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	return TellWProc(FileWrite) - WriteFileStart;  // Relative to the start, just like IL_SEEK_SET.
 }
 
 
diff --git a/DevIL/src-IL/src/il_internal.cpp b/DevIL/src-IL/src/il_internal.cpp
index 95a85a4..4e71bc1 100644
--- a/DevIL/src-IL/src/il_internal.cpp
+++ b/DevIL/src-IL/src/il_internal.cpp
@@ -184,7 +184,7 @@ ILbyte *iFgets(char *buffer, ILuint maxlen)
 	ILuint	counter = 0;
 	ILint	temp = '\0';
 
-	while ((temp = igetc()) && temp != '\n' && temp != IL_EOF && counter < maxlen) {
+	while ((temp = igetc()) && temp != '\n' && temp != IL_EOF && counter < maxlen - 1) {
 		buffer[counter] = temp;
 		counter++;
 	}
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..f2148e0 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2246,20 +2246,10 @@ finish:
 }
 
 
-//! Attempts to save an image to a file.  The file format is specified by the user.
-/*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
-	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
-	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename to save to.
-	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+static ILboolean iSaveFile(ILenum Type, ILconst_string FileName)
 {
 	switch (Type)
 	{
-		case IL_TYPE_UNKNOWN:
-			return ilSaveImage(FileName);
-
 		#ifndef IL_NO_BMP
 		case IL_BMP:
 			return ilSaveBmp(FileName);
@@ -2359,6 +2349,28 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 }
 
 
+//! Attempts to save an image to a file.  The file format is specified by the user.
+/*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
+	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
+	IL_VTF, IL_WBMP and IL_JASC_PAL.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename to save to.
+	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
+ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+{
+	if (Type == IL_TYPE_UNKNOWN)
+		return ilSaveImage(FileName);
+
+	if (FileName == NULL || ilStrLen(FileName) < 1) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	iResetWriteStatus();
+	return iSaveFile(Type, FileName) && iWriteStatus();
+}
+
+
 //! Attempts to save an image to a file stream.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
@@ -2367,13 +2379,14 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 {
-	ILboolean Ret;
+	ILuint Ret;
 
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
 
+	iResetWriteStatus();
 	switch (Type)
 	{
 		#ifndef IL_NO_BMP
@@ -2414,6 +2427,12 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			#endif
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			Ret = ilSavePnmF(File);
@@ -2473,33 +2492,15 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			return 0;
 	}
 
-	if (Ret == IL_FALSE)
+	if (Ret == 0 || !iWriteStatus())
 		return 0;
 
-	return itellw();
+	return iWriteSize();
 }
 
 
-//! Attempts to save an image to a memory buffer.  The file format is specified by the user.
-/*! \param Type Format of this image file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
-	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
-	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param Lump Memory buffer to save to
-	\param Size Size of the memory buffer
-	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+static ILuint iSaveLump(ILenum Type, void *Lump, ILuint Size)
 {
-	if (Lump == NULL) {
-		if (Size != 0) {
-			ilSetError(IL_INVALID_PARAM);
-			return 0;
-		}
-		// The user wants to know how large of a buffer they need.
-		else {
-			return ilDetermineSize(Type);
-		}
-	}
-
 	switch (Type)
 	{
 		#ifndef IL_NO_BMP
@@ -2527,6 +2528,11 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 			return ilSaveJpegL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			return ilSavePcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_PNG
 		case IL_PNG:
 			return ilSavePngL(Lump, Size);
@@ -2583,6 +2589,34 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
+//! Attempts to save an image to a memory buffer.  The file format is specified by the user.
+/*! \param Type Format of this image file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
+	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
+	IL_VTF, IL_WBMP and IL_JASC_PAL.
+	\param Lump Memory buffer to save to
+	\param Size Size of the memory buffer
+	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
+ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+{
+	if (Lump == NULL) {
+		if (Size != 0) {
+			ilSetError(IL_INVALID_PARAM);
+			return 0;
+		}
+		// The user wants to know how large of a buffer they need.
+		else {
+			return ilDetermineSize(Type);
+		}
+	}
+
+	iResetWriteStatus();
+	if (iSaveLump(Type, Lump, Size) == 0 || !iWriteStatus())
+		return 0;
+
+	return iWriteSize();
+}
+
+
 //! Saves the current image based on the extension given in FileName.
 /*! \param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
 	       the filename to save to.
@@ -2608,6 +2642,8 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
+	iResetWriteStatus();
+
 	#ifndef IL_NO_BMP
 	if (!iStrCmp(Ext, IL_TEXT("bmp"))) {
 		bRet = ilSaveBmp(FileName);
@@ -2757,5 +2793,5 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	return IL_FALSE;
 
 finish:
-	return bRet;
+	return bRet && iWriteStatus();
 }
diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 8241c23..7a54801 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -314,8 +314,9 @@ ILboolean ilSaveMng(const ILstring FileName)
 //! Writes a Mng to an already-opened file
 ILuint ilSaveMngF(ILHANDLE File)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputFile(File);
+	Pos = itellw();
 	if (iSaveMngInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..ebcd918 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -104,16 +104,30 @@ ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (FileName == NULL || ilStrLen(FileName) < 1) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
+	iResetWriteStatus();
+	iSetOutputFile(DataFile);
 	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iclosew(DataFile);
 
-	return IL_TRUE;
+	return iWriteStatus();
 }
 
 
diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..51fc981 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -13,9 +13,6 @@
 #include "il_internal.h"
 
 
-ILuint iTargaSize(void);
-
-
 ILuint CurPos;  // Fake "file" pointer.
 ILuint MaxPos;
 
@@ -79,6 +76,8 @@ ILint ILAPIENTRY iSizeWrite(const void *Buffer, ILuint Size, ILuint Number)
 //  A return value of 0 is an error.
 ILuint ilDetermineSize(ILenum Type)
 {
+	ILuint Size;
+
 	MaxPos = CurPos = 0;
 	iSetOutputFake();  // Sets iputc, iwrite, etc. to functions above.
 
@@ -86,92 +85,97 @@ ILuint ilDetermineSize(ILenum Type)
 	{
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			ilSaveBmpL(NULL, 0);
+			Size = ilSaveBmpL(NULL, 0);
 			break;
 		#endif//IL_NO_BMP
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-			ilSaveDdsL(NULL, 0);
+			Size = ilSaveDdsL(NULL, 0);
 			break;
 		#endif//IL_NO_DDS
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-			ilSaveExrL(NULL, 0);
+			Size = ilSaveExrL(NULL, 0);
 			break;
 		#endif//IL_NO_EXR
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			ilSaveHdrL(NULL, 0);
+			Size = ilSaveHdrL(NULL, 0);
 			break;
 		#endif//IL_NO_HDR
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			ilSaveJp2L(NULL, 0);
+			Size = ilSaveJp2L(NULL, 0);
 			break;
 		#endif//IL_NO_JP2
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			ilSaveJpegL(NULL, 0);
+			Size = ilSaveJpegL(NULL, 0);
 			break;
 		#endif//IL_NO_JPG
 
 		#ifndef IL_NO_PCX
 		case IL_PCX:
-			ilSavePcxL(NULL, 0);
+			Size = ilSavePcxL(NULL, 0);
 			break;
 		#endif//IL_NO_PCX
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			ilSavePngL(NULL, 0);
+			Size = ilSavePngL(NULL, 0);
 			break;
 		#endif//IL_NO_PNG
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			ilSavePnmL(NULL, 0);
+			Size = ilSavePnmL(NULL, 0);
 			break;
 		#endif//IL_NO_PNM
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			ilSavePsdL(NULL, 0);
+			Size = ilSavePsdL(NULL, 0);
 			break;
 		#endif//IL_NO_PSD
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			ilSaveRawL(NULL, 0);
+			Size = ilSaveRawL(NULL, 0);
 			break;
 		#endif//IL_NO_RAW
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			ilSaveSgiL(NULL, 0);
+			Size = ilSaveSgiL(NULL, 0);
 			break;
 		#endif//IL_NO_SGI
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			Size = ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			ilSaveTiffL(NULL, 0);
+			Size = ilSaveTiffL(NULL, 0);
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			Size = ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			ilSaveWbmpL(NULL, 0);
+			Size = ilSaveWbmpL(NULL, 0);
 			break;
 		#endif//IL_NO_WBMP
 
@@ -181,5 +185,5 @@ ILuint ilDetermineSize(ILenum Type)
 			return 0;
 	}
 
-	return MaxPos;
+	return Size == 0 ? 0 : MaxPos;
 }
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..4973318 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -580,20 +580,18 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
 }
 
 
-// Internal function used to save the Targa.
-ILboolean iSaveTargaInternal()
+// Does the work for iSaveTargaInternal.
+static ILboolean iSaveTargaStrings(const char *ID, const char *AuthName, const char *AuthComment)
 {
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
 	ILubyte 	IDLen = 0, UsePal, Type, PalEntSize;
 	ILshort 	ColMapStart = 0, PalSize;
 	ILubyte		Temp;
@@ -648,7 +646,7 @@ ILboolean iSaveTargaInternal()
 			break;
 		case IL_RGB:
 		case IL_RGBA:
-			ilSwapColours();
+			Format = (Format == IL_RGB) ? IL_BGR : IL_BGRA;
 			if (Compress)
 				Type = 10;
 			else
@@ -663,9 +661,6 @@ ILboolean iSaveTargaInternal()
 		default:
 			// Should convert the types here...
 			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
 			return IL_FALSE;
 	}
 	
@@ -697,9 +692,6 @@ ILboolean iSaveTargaInternal()
 			break;
 		default:
 			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
 			PalSize = 0;
 			PalEntSize = 0;
 			return IL_FALSE;
@@ -707,12 +699,13 @@ ILboolean iSaveTargaInternal()
 	SaveLittleShort(PalSize);
 	iwrite(&PalEntSize, sizeof(ILubyte), 1);
 	
-	if (iCurImage->Bpc > 1) {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
+	if (iCurImage->Bpc > 1 || iCurImage->Format != Format) {
+		TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
 		if (TempImage == NULL) {
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
+			if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
 			return IL_FALSE;
 		}
 	}
@@ -722,6 +715,15 @@ ILboolean iSaveTargaInternal()
 	
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = (char*)iGetFlipped(TempImage);
+		if (TempData == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
+			return IL_FALSE;
+		}
 	}
 	else
 		TempData = (char*)TempImage->Data;
@@ -741,11 +743,9 @@ ILboolean iSaveTargaInternal()
 	Temp = 0;
 	if (iCurImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// The data is always written from the bottom to the top here, so bit 5 stays 0.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
-	ifree(ID);
 	//iwrite(ID, sizeof(ILbyte), IDLen - sizeof(ILuint));
 	//iwrite(&iCurImage->Depth, sizeof(ILuint), 1);
 	
@@ -759,8 +759,14 @@ ILboolean iSaveTargaInternal()
 	else {
 		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
 		if (Rle == NULL) {
-			ifree(AuthName);
-			ifree(AuthComment);
+			if (TempData != (char*)TempImage->Data)
+				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
 			return IL_FALSE;
 		}
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
@@ -777,8 +783,6 @@ ILboolean iSaveTargaInternal()
 	ipad(41 - ilCharStrLen(AuthName));
 	iwrite(AuthComment, 1, ilCharStrLen(AuthComment));
 	ipad(324 - ilCharStrLen(AuthComment));
-	ifree(AuthName);
-	ifree(AuthComment);
 	
 	// Write time/date
 	iGetDateTime(&Month, &Day, &Year, &Hour, &Minute, &Second);
@@ -822,9 +826,6 @@ ILboolean iSaveTargaInternal()
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		ifree(TempData);
 	}
-	if (Format == IL_RGB || Format == IL_RGBA) {
-		ilSwapColours();
-	}
 	
 	if (TempPal != &iCurImage->Pal && TempPal != NULL) {
 		ifree(TempPal->Palette);
@@ -838,49 +839,20 @@ ILboolean iSaveTargaInternal()
 }
 
 
-// Only to be called by ilDetermineSize.  Returns the buffer size needed to save the
-//  current image as a Targa file.
-ILuint iTargaSize(void)
+// Internal function used to save the Targa.
+ILboolean iSaveTargaInternal()
 {
-	ILuint	Size, Bpp;
-	ILubyte	IDLen = 0;
 	const char	*ID = iGetString(IL_TGA_ID_STRING);
 	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
 	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
+	ILboolean	Ret;
 
-	//@TODO: Support color indexed images.
-	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
-		// Use the slower method, since we are using compression.  We do a "fake" write.
-		ilSaveTargaL(NULL, 0);
-	}
-
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
-
-	Size = 18 + IDLen;  // Header + ID
-
-	// Bpp may not be iCurImage->Bpp.
-	switch (iCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_RGB:
-			Bpp = 3;
-			break;
-		case IL_BGRA:
-		case IL_RGBA:
-			Bpp = 4;
-			break;
-		case IL_LUMINANCE:
-			Bpp = 1;
-			break;
-		default:  //@TODO: Do not know what to do with the others yet.
-			return 0;
-	}
-
-	Size += iCurImage->Width * iCurImage->Height * Bpp;
-	Size += 532;  // Size of the extension area
+	Ret = iSaveTargaStrings(ID, AuthName, AuthComment);
+	ifree(ID);
+	ifree(AuthName);
+	ifree(AuthComment);
 
-	return Size;
+	return Ret;
 }
 
 
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..d4253ba 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -914,8 +914,9 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From 9b95b04084a4e299d645bd05ecfee468407fe1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 08/72] fix: palettes and registered handlers stay as they were
 when loading, saving or registering fails

Palette readers used whatever source was read last, leaked handles and
left half a palette; the first registered extension could be registered
twice.
---
 DevIL/src-IL/src/il_header.cpp   |   9 +-
 DevIL/src-IL/src/il_pal.cpp      | 268 +++++++++++++------------------
 DevIL/src-IL/src/il_register.cpp | 149 +++++++++--------
 3 files changed, 203 insertions(+), 223 deletions(-)

diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 4115afe..40e9d61 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -24,6 +24,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
 	const char	*Name;
+	ILboolean	Failed;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -72,6 +73,8 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 #endif//_UNICODE
 
 	if (HeadFile == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
         return IL_FALSE;
 	}
@@ -126,7 +129,11 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 
 		fprintf(HeadFile, "};\n");
 	}
-	fclose(HeadFile);
+	Failed = ferror(HeadFile) != 0;
+	if (fclose(HeadFile) != 0 || Failed) {
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 	return IL_TRUE;
 }
 
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index 428abb9..357b3fa 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -18,6 +18,16 @@
 #include <limits.h>
 
 
+// Replaces the palette of the current image.
+static void iReplacePal(ILubyte *Palette, ILuint Size, ILenum Type)
+{
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = Type;
+}
+
+
 //! Loads a palette from FileName into the current image's palette.
 ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 {
@@ -50,8 +60,7 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	fread(Head, 1, 8, f);
-	if (!strncmp(Head, "JASC-PAL", 8))
+	if (fread(Head, 1, 8, f) == 8 && !strncmp(Head, "JASC-PAL", 8))
 		IsPsp = IL_TRUE;
 	else
 		IsPsp = IL_FALSE;
@@ -71,7 +80,7 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 	ILuint NumColours, i, c;
 	ILubyte Buff[BUFFLEN];
 	ILboolean Error = IL_FALSE;
-	ILpal *Pal = &iCurImage->Pal;
+	ILubyte *Palette;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -93,11 +102,6 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
 	iFgetw(Buff, BUFFLEN, PalFile);
 	if (stricmp((const char*)Buff, "JASC-PAL")) {
 		Error = IL_TRUE;
@@ -109,28 +113,32 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 
 	iFgetw(Buff, BUFFLEN, PalFile);
 	NumColours = atoi((const char*)Buff);
-	if (NumColours == 0 || Error) {
+	if (NumColours == 0 || NumColours > UINT_MAX / PALBPP || Error) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		fclose(PalFile);
 		return IL_FALSE;
 	}
 	
-	Pal->PalSize = NumColours * PALBPP;
-	Pal->PalType = IL_PAL_RGB24;
-	Pal->Palette = (ILubyte*)ialloc(NumColours * PALBPP);
-	if (Pal->Palette == NULL) {
+	Palette = (ILubyte*)ialloc(NumColours * PALBPP);
+	if (Palette == NULL) {
 		fclose(PalFile);
 		return IL_FALSE;
 	}
 
 	for (i = 0; i < NumColours; i++) {
 		for (c = 0; c < PALBPP; c++) {
-			iFgetw(Buff, BUFFLEN, PalFile);
-			Pal->Palette[i * PALBPP + c] = atoi((const char*)Buff);
+			if (feof(PalFile) || ferror(PalFile) || iFgetw(Buff, BUFFLEN, PalFile)[0] == '\0') {  // Not enough entries
+				ilSetError(IL_FILE_READ_ERROR);
+				fclose(PalFile);
+				ifree(Palette);
+				return IL_FALSE;
+			}
+			Palette[i * PALBPP + c] = atoi((const char*)Buff);
 		}
 	}
 
 	fclose(PalFile);
+	iReplacePal(Palette, NumColours * PALBPP, IL_PAL_RGB24);
 
 	return IL_TRUE;
 }
@@ -158,14 +166,18 @@ char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
 			while (Temp == ' ') {  // Just to get rid of any extra spaces
 				Temp = fgetc(File);
 			}
+			if (Temp == IL_EOF)
+				break;
 			fseek(File, -1, IL_SEEK_CUR);  // Go back one
 			break;
 		}
 
 		if (!isprint(Temp)) {  // Skips any non-printing characters
-			while (!isprint(Temp)) {
+			while (Temp != IL_EOF && !isprint(Temp)) {
 				Temp = fgetc(File);
 			}
+			if (Temp == IL_EOF)
+				break;
 			fseek(File, -1, IL_SEEK_CUR);
 			break;
 		}
@@ -214,10 +226,12 @@ ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 ILboolean ilSaveJascPal(ILconst_string FileName)
 {
 	FILE	*PalFile;
-	ILuint	i, PalBpp, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-	ILubyte	*CurPal;
+	ILuint	i, PalBpp, NumCols;
+	ILpal	*Pal;
+	ILboolean Failed;
 
-	if (iCurImage == NULL || NumCols == 0 || NumCols > 256) {
+	NumCols = (iCurImage == NULL) ? 0 : ilGetInteger(IL_PALETTE_NUM_COLS);
+	if (NumCols == 0 || NumCols > 256) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -243,20 +257,10 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 		}
 	}
 
-	// Create a copy of the current palette and convert it to RGB24 format.
-	CurPal = iCurImage->Pal.Palette;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		iCurImage->Pal.Palette = CurPal;
-		return IL_FALSE;
-	}
-
-	memcpy(iCurImage->Pal.Palette, CurPal, iCurImage->Pal.PalSize);
-	if (!ilConvertPal(IL_PAL_RGB24)) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = CurPal;
+	// Create a copy of the current palette in RGB24 format.
+	Pal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+	if (Pal == NULL)
 		return IL_FALSE;
-	}
 
 #ifndef _UNICODE
 	PalFile = fopen(FileName, "wt");
@@ -265,16 +269,18 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 #endif//_UNICODE
 	if (!PalFile) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		ifree(Pal->Palette);
+		ifree(Pal);
 		return IL_FALSE;
 	}
 
 	// Header needed on all .pal files
 	fputs("JASC-PAL\n0100\n256\n", PalFile);
 
-	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
-	for (i = 0; i < iCurImage->Pal.PalSize; i += PalBpp) {
+	PalBpp = ilGetBppPal(Pal->PalType);
+	for (i = 0; i + PalBpp <= Pal->PalSize; i += PalBpp) {
 		fprintf(PalFile, "%d %d %d\n",
-			iCurImage->Pal.Palette[i], iCurImage->Pal.Palette[i+1], iCurImage->Pal.Palette[i+2]);
+			Pal->Palette[i], Pal->Palette[i+1], Pal->Palette[i+2]);
 	}
 
 	NumCols = 256 - NumCols;
@@ -282,10 +288,14 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 		fprintf(PalFile, "0 0 0\n");
 	}
 
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = CurPal;
+	ifree(Pal->Palette);
+	ifree(Pal);
 
-	fclose(PalFile);
+	Failed = ferror(PalFile) != 0;
+	if (fclose(PalFile) != 0 || Failed) {
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -297,6 +307,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 	ILHANDLE	HaloFile;
 	HALOHEAD	HaloHead;
 	ILushort	*TempPal;
+	ILubyte		*Palette;
 	ILuint		i, Size;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
@@ -314,9 +325,12 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(HaloFile);
 
-	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1)
+	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
+		icloser(HaloFile);
 		return IL_FALSE;
+	}
 
 	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3) {
 		icloser(HaloFile);
@@ -326,36 +340,38 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 
 	Size = (HaloHead.MaxIndex + 1) * 3;
 	TempPal = (ILushort*)ialloc(Size * sizeof(ILushort));
-	if (TempPal == NULL) {
-		icloser(HaloFile);
-		return IL_FALSE;
-	}
-
-	if (iread(TempPal, sizeof(ILushort), Size) != Size) {
+	Palette = (ILubyte*)ialloc(Size);
+	if (TempPal == NULL || Palette == NULL || iread(TempPal, sizeof(ILushort), Size) != Size) {
 		icloser(HaloFile);
 		ifree(TempPal);
+		ifree(Palette);
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		icloser(HaloFile);
-		return IL_FALSE;
+	for (i = 0; i < Size; i++) {
+		Palette[i] = (ILubyte)TempPal[i];
 	}
+	ifree(TempPal);
+	icloser(HaloFile);
+	iReplacePal(Palette, Size, IL_PAL_RGB24);
+
+	return IL_TRUE;
+}
 
-	for (i = 0; i < iCurImage->Pal.PalSize; i++, TempPal++) {
-		iCurImage->Pal.Palette[i] = (ILubyte)*TempPal;
+
+// Reads the rest of a palette file that only consists of the entries.
+static ILboolean iReadRgbPal(ILHANDLE File, ILuint Size)
+{
+	ILubyte *Palette = (ILubyte*)ialloc(Size);
+
+	if (Palette == NULL || iread(Palette, 1, Size) != Size) {
+		ifree(Palette);
+		icloser(File);
+		return IL_FALSE;
 	}
-	TempPal -= iCurImage->Pal.PalSize;
-	ifree(TempPal);
 
-	icloser(HaloFile);
+	icloser(File);
+	iReplacePal(Palette, Size, IL_PAL_RGB24);
 
 	return IL_TRUE;
 }
@@ -368,7 +384,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 ILboolean ilLoadColPal(ILconst_string FileName)
 {
 	ILuint		RealFileSize, FileSize;
-	ILushort	Version;
+	ILushort	Version, Zero;
 	ILHANDLE	ColFile;
 
 	if (!iCheckExtension(FileName, IL_TEXT("col"))) {
@@ -386,62 +402,32 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(ColFile);
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+	if (iseek(0, IL_SEEK_END) != 0) {
+		icloser(ColFile);
+		return IL_FALSE;
+	}
+	RealFileSize = itell();
+	if (iseek(0, IL_SEEK_SET) != 0) {
+		icloser(ColFile);
+		return IL_FALSE;
 	}
-
-	iseek(0, IL_SEEK_END);
-	RealFileSize = ftell((FILE*)ColFile);
-	iseek(0, IL_SEEK_SET);
 
 	if (RealFileSize > 768) {  // has a header
-		fread(&FileSize, 4, 1, (FILE*)ColFile);
-		if ((FileSize - 8) % 3 != 0) {  // check to make sure an even multiple of 3!
-			icloser(ColFile);
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-		if (iread(&Version, 2, 1) != 1) {
-			icloser(ColFile);
-			return IL_FALSE;
-		}
-		if (Version != 0xB123) {
-			icloser(ColFile);
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-		if (iread(&Version, 2, 1) != 1) {
+		if (iread(&FileSize, 4, 1) != 1 || iread(&Version, 2, 1) != 1 || iread(&Zero, 2, 1) != 1) {
 			icloser(ColFile);
 			return IL_FALSE;
 		}
-		if (Version != 0) {
+		// check to make sure an even multiple of 3!
+		if ((FileSize - 8) % 3 != 0 || Version != 0xB123 || Zero != 0) {
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
 	}
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL) {
-		icloser(ColFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
-		icloser(ColFile);
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-		return IL_FALSE;
-	}
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-
-	icloser(ColFile);
-
-	return IL_TRUE;
+	return iReadRgbPal(ColFile, 768);
 }
 
 
@@ -465,28 +451,9 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(ActFile);
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (!iCurImage->Pal.Palette) {
-		icloser(ActFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
-		icloser(ActFile);
-		return IL_FALSE;
-	}
-
-	icloser(ActFile);
-
-	return IL_TRUE;
+	return iReadRgbPal(ActFile, 768);
 }
 
 
@@ -494,6 +461,7 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 ILboolean ilLoadPltPal(ILconst_string FileName)
 {
 	ILHANDLE	PltFile;
+	ILuint		Size;
 
 	if (!iCheckExtension(FileName, IL_TEXT("plt"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -510,34 +478,20 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(PltFile);
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalSize = GetLittleUInt();
-	if (iCurImage->Pal.PalSize == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
+	if (iread(&Size, 4, 1) != 1) {
 		icloser(PltFile);
 		return IL_FALSE;
 	}
-
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+	UInt(&Size);
+	if (Size == 0 || Size % PALBPP != 0) {
 		icloser(PltFile);
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	icloser(PltFile);
-
-	return IL_TRUE;
+	return iReadRgbPal(PltFile, Size);
 }
 
 
@@ -697,6 +651,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -819,6 +774,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -826,6 +782,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 
 		default:
+			ifree(NewPal);
 			ilSetError(IL_INVALID_PARAM);
 			return NULL;
 	}
@@ -869,24 +826,19 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 // Sets the current palette.
 ILAPI void ILAPIENTRY ilSetPal(ILpal *Pal)
 {
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILpal NewPal;
+
+	NewPal.Palette = NULL;
+	NewPal.PalSize = 0;
+	NewPal.PalType = IL_PAL_NONE;
 
 	if (Pal->Palette && Pal->PalSize && Pal->PalType != IL_PAL_NONE) {
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-		if (iCurImage->Pal.Palette == NULL)
+		if (!iCopyPalette(&NewPal, Pal))
 			return;
-		memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-		iCurImage->Pal.PalSize = Pal->PalSize;
-		iCurImage->Pal.PalType = Pal->PalType;
-	}
-	else {
-		iCurImage->Pal.Palette = NULL;
-		iCurImage->Pal.PalSize = 0;
-		iCurImage->Pal.PalType = IL_PAL_NONE;
 	}
 
+	iReplacePal(NewPal.Palette, NewPal.PalSize, NewPal.PalType);
+
 	return;
 }
 
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..b2ca9c4 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -24,15 +24,16 @@ iFormatS *SaveProcs = NULL;
 
 
 ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
-	iFormatL *TempNode, *NewNode;
+	iFormatL *NewNode, **Last;
 
-	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	if (Ext == NULL || Load == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	for (Last = &LoadProcs; *Last != NULL; Last = &(*Last)->Next) {
+		if (!iStrCmp((*Last)->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
 	}
 
@@ -41,16 +42,14 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		return IL_FALSE;
 	}
 
-	if (LoadProcs == NULL) {
-		LoadProcs = NewNode;
-	}
-	else {
-		TempNode->Next = NewNode;
-	}
-
 	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
+	*Last = NewNode;
 
 	return IL_TRUE;
 }
@@ -58,33 +57,32 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 
 ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 {
-	iFormatS *TempNode, *NewNode;
+	iFormatS *NewNode, **Last;
 
-	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	if (Ext == NULL || Save == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	for (Last = &SaveProcs; *Last != NULL; Last = &(*Last)->Next) {
+		if (!iStrCmp((*Last)->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
 	}
 
-	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
+	NewNode = (iFormatS*)ialloc(sizeof(iFormatS));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
 
-	if (SaveProcs == NULL) {
-		SaveProcs = NewNode;
-	}
-	else {
-		TempNode->Next = NewNode;
-	}
-
 	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
+	*Last = NewNode;
 
 	return IL_TRUE;
 }
@@ -232,6 +230,11 @@ ILboolean iRegisterSave(ILconst_string FileName)
 
 void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Origin)
 	{
 		case IL_ORIGIN_LOWER_LEFT:
@@ -247,6 +250,11 @@ void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 
 void ILAPIENTRY ilRegisterFormat(ILenum Format)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Format)
 	{
 		case IL_COLOUR_INDEX:
@@ -267,7 +275,12 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
@@ -286,12 +299,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -304,7 +313,12 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
@@ -323,12 +337,8 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
@@ -341,7 +351,12 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
@@ -360,12 +375,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
@@ -378,6 +389,11 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 
 void ILAPIENTRY ilRegisterType(ILenum Type)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Type)
 	{
 		case IL_BYTE:
@@ -400,23 +416,28 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte *Palette;
 
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
-
-	if (Pal != NULL) {
-		memcpy(iCurImage->Pal.Palette, Pal, Size);
 	}
-	else {
+
+	if (Pal == NULL || Size == 0 || ilGetBppPal(Type) == 0) {
 		ilSetError(IL_INVALID_PARAM);
+		return;
 	}
-	
+
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL)
+		return;
+	memcpy(Palette, Pal, Size);
+
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = Type;
+
 	return;
 }
 
-- 
2.43.0


From 22a72c41dbe478b4c8033adac191ffbda7f3407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 09/72] fix: bound the RLE, SGI, PNM, BMP and raw codecs and
 release what a failed step holds

---
 DevIL/src-IL/src/il_bmp.cpp   | 18 +++++++----
 DevIL/src-IL/src/il_pnm.cpp   | 56 ++++++++++++++++-------------------
 DevIL/src-IL/src/il_raw.cpp   | 17 +++++++----
 DevIL/src-IL/src/il_rle.cpp   |  1 -
 DevIL/src-IL/src/il_sgi.cpp   | 51 ++++++++++++-------------------
 DevIL/src-IL/src/il_targa.cpp |  2 +-
 6 files changed, 69 insertions(+), 76 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..7fce0f4 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -954,20 +954,28 @@ ILboolean iSaveBitmapInternal()
 		} else {
 			TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);
 		}
-		if (TempImage == NULL)
-			return IL_FALSE;
 	} else if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-			return IL_FALSE;
 	} else {
 		TempImage = iCurImage;
 	}
+	if (TempImage == NULL) {
+		if (TempPal != &iCurImage->Pal) {
+			ifree(TempPal->Palette);
+			ifree(TempPal);
+		}
+		return IL_FALSE;
+	}
 
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempPal != &iCurImage->Pal) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..b598252 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -255,14 +255,7 @@ ILboolean iLoadPnmInternal()
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
 	{
-		if (Info.Type == IL_PGM_ASCII)
-		{
-			Info.Bpp = Info.MaxColour < 256 ? 1 : 2;
-		}
-		else
-		{
-			Info.Bpp = 1;
-		}
+		Info.Bpp = 1;
 	}
 	else
 	{
@@ -302,8 +295,6 @@ ILboolean iLoadPnmInternal()
 		PbmMaximize(PmImage);
 	}
 
-	if (Info.MaxColour > 255)
-		PmImage->Type = IL_UNSIGNED_SHORT;
 	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
@@ -321,20 +312,14 @@ ILboolean iLoadPnmInternal()
 
 ILimage *ilReadAsciiPpm(PPMINFO *Info)
 {
-	ILint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
+	ILuint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
 //	ILint	BytesRead = 0;
 
-	if (Info->MaxColour > 255)
-		Info->Bpp *= 2;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, Info->MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info->MaxColour > 255)
-		iCurImage->Type = IL_UNSIGNED_SHORT;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 
 	while (DataInc < Size) {  // && !feof(File)) {
 		LineInc = 0;
@@ -349,19 +334,25 @@ ILimage *ilReadAsciiPpm(PPMINFO *Info)
 			continue;
 		}
 
-		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n')) {
+		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n') && DataInc < Size) {
 
 			SmallInc = 0;
-			while (!isalnum(LineBuffer[LineInc])) {  // Skip any whitespace
+			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
 				LineInc++;
 			}
+			if (LineBuffer[LineInc] == NUL)
+				break;
 			while (isalnum(LineBuffer[LineInc])) {
 				SmallBuff[SmallInc] = LineBuffer[LineInc];
 				SmallInc++;
 				LineInc++;
 			}
 			SmallBuff[SmallInc] = NUL;
-			iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);  // Convert from string to colour
+			// Convert from string to colour
+			if (Info->MaxColour > 255)
+				((ILushort*)iCurImage->Data)[DataInc] = atoi((const char*)SmallBuff);
+			else
+				iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);
 
 			// PSP likes to put whitespace at the end of lines...figures. =/
 			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
@@ -370,8 +361,6 @@ ILimage *ilReadAsciiPpm(PPMINFO *Info)
 
 			// We should set some kind of state flag that enables this
 			//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255		
-			if (Info->MaxColour > 255)
-				DataInc++;
 			DataInc++;
 		}
 	}
@@ -392,12 +381,11 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 {
 	ILuint Size;
 
-	Size = Info->Width * Info->Height * Info->Bpp;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, Info->MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	Size = iCurImage->SizeOfData;
 
 	/* 4/3/2007 Dario Meloni
 	 Here it seems we have eaten too much bytes and it is needed to fix 
@@ -410,9 +398,14 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 	iseek(size-Size,IL_SEEK_SET);
 	*/
 	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
 		return NULL;
 	}
+#ifdef __LITTLE_ENDIAN__
+	if (Info->MaxColour > 255) {
+		for (ILuint i = 0; i < Size; i += 2)
+			iSwapUShort((ILushort*)(iCurImage->Data + i));
+	}
+#endif
 	return iCurImage;
 }
 
@@ -428,7 +421,8 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 
 	x = 0;
 	for (j = 0; j < iCurImage->SizeOfData;) {
-		CurrByte = igetc();
+		if ((ILint)(CurrByte = igetc()) == IL_EOF)
+			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
 			iCurImage->Data[j] = (CurrByte & m)?255:0;
 		}
@@ -552,7 +546,6 @@ ILboolean ilReadPam()
 
 	if (iread(iCurImage->Data, 1, Size) != Size)
 	{
-		ilCloseImage(iCurImage);
 		return IL_FALSE;
 	}
 
@@ -593,7 +586,7 @@ ILboolean iGetWord(ILboolean final)
 	{
 		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
 		{
-			if (WordPos >= MAX_BUFFER)  // We have hit the maximum line length.
+			if (WordPos >= MAX_BUFFER - 1)  // We have hit the maximum line length.
 				return IL_FALSE;
 
 			if (!isalnum(Current) && Current != '_') {
@@ -790,6 +783,7 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 
 	if (Bpp != TempImage->Bpp) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_INVALID_CONVERSION);
 		return IL_FALSE;
 	}
diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 881fdd3..1b8ea25 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -70,24 +70,27 @@ ILboolean ilLoadRawL(const void *Lump, ILuint Size)
 // Internal function to load a raw image
 ILboolean iLoadRawInternal()
 {
+	ILuint	Width, Height, Depth;
+	ILubyte	Bpp, Bpc;
+
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 
-	iCurImage->Width = GetLittleUInt();
+	Width = GetLittleUInt();
 
-	iCurImage->Height = GetLittleUInt();
+	Height = GetLittleUInt();
 
-	iCurImage->Depth = GetLittleUInt();
+	Depth = GetLittleUInt();
 
-	iCurImage->Bpp = (ILubyte)igetc();
+	Bpp = (ILubyte)igetc();
 
-	if (iread(&iCurImage->Bpc, 1, 1) != 1)
+	if (iread(&Bpc, 1, 1) != 1)
 		return IL_FALSE;
 
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->Bpp, 0, ilGetTypeBpc(iCurImage->Bpc), NULL)) {
+	if (!ilTexImage(Width, Height, Depth, Bpp, 0, ilGetTypeBpc(Bpc), NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -105,6 +108,8 @@ ILboolean iLoadRawInternal()
 
 	if (iCurImage->Bpp == 1)
 		iCurImage->Format = IL_LUMINANCE;
+	else if (iCurImage->Bpp == 2)
+		iCurImage->Format = IL_LUMINANCE_ALPHA;
 	else if (iCurImage->Bpp == 3)
 		iCurImage->Format = IL_RGB;
 	else  // 4
diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..edaa46b 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..26a2791 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -15,7 +15,6 @@
 #include "il_sgi.h"
 #include <limits.h>
 
-static char *FName = NULL;
 
 /*----------------------------------------------------------------------------*/
 
@@ -30,8 +29,6 @@ ILboolean ilIsValidSgi(ILconst_string FileName)
 		return bSgi;
 	}
 
-	FName = (char*)FileName;
-
 	SgiFile = iopenr(FileName);
 	if (SgiFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
@@ -65,7 +62,6 @@ ILboolean ilIsValidSgiF(ILHANDLE File)
 //! Checks if Lump is a valid .sgi lump.
 ILboolean ilIsValidSgiL(const void *Lump, ILuint Size)
 {
-	FName = NULL;
 	iSetInputLump(Lump, Size);
 	return iIsValidSgi();
 }
@@ -281,10 +277,10 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	// Assemble the image from its planes
 	for (ixPixel = 0; ixPixel < iCurImage->SizeOfData;
 		ixPixel += Head->ZSize * Head->Bpc, ChanInt += Head->Bpc) {
-		for (ixPlane = 0; (ILint)ixPlane < Head->ZSize * Head->Bpc;	ixPlane += Head->Bpc) {
-			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane][ChanInt];
+		for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
+			iCurImage->Data[ixPixel + ixPlane * Head->Bpc] = TempData[ixPlane][ChanInt];
 			if (Head->Bpc == 2)
-				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane][ChanInt + 1];
+				iCurImage->Data[ixPixel + ixPlane * Head->Bpc + 1] = TempData[ixPlane][ChanInt + 1];
 		}
 	}
 
@@ -335,6 +331,8 @@ ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 
 		if (!(Count = (Pixel & 0x7f)))  // If 0, line ends
 			return CurPos;
+		if (Head->Bpc * Count > Bps - CurPos)  // Would not fit into the line
+			return -1;
 		if (Pixel & 0x80) {  // If top bit set, then it is a "run"
 			if (iread(ScanLine, Head->Bpc, Count) != Count)
 				return -1;
@@ -442,7 +440,11 @@ void sgiSwitchData(ILubyte *Data, ILuint SizeOfData)
 // Just an internal convenience function for reading SGI files
 ILboolean iNewSgi(iSgiHeader *Head)
 {
-	if (!ilTexImage(Head->XSize, Head->YSize, Head->Bpc, (ILubyte)Head->ZSize, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Head->Bpc < 1 || Head->Bpc > 2 || Head->ZSize > 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!ilTexImage(Head->XSize, Head->YSize, 1, (ILubyte)Head->ZSize, 0, Head->Bpc == 2 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -562,7 +564,7 @@ ILenum DetermineSgiType(ILenum Type)
 ILboolean iSaveSgiInternal()
 {
 	ILuint		i, c;
-	ILboolean	Compress;
+	ILboolean	Compress, Saved = IL_TRUE;
 	ILimage		*Temp = iCurImage;
 	ILubyte		*TempData;
 
@@ -588,22 +590,18 @@ ILboolean iSaveSgiInternal()
 	}
 	
 	//compression of images with 2 bytes per channel doesn't work yet
-	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
-
 	if (Temp == NULL)
 		return IL_FALSE;
 
+	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
+
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
 		iputc(1);
 	else
 		iputc(0);
 
-	if (Temp->Type == IL_UNSIGNED_BYTE)
-		iputc(1);
-	else if (Temp->Type == IL_UNSIGNED_SHORT)
-		iputc(2);
-	// Need to error here if not one of the two...
+	iputc(Temp->Bpc);  // Can only be 1 or 2 here.
 
 	if (Temp->Format == IL_LUMINANCE || Temp->Format == IL_COLOUR_INDEX)
 		SaveBigUShort(2);
@@ -636,19 +634,8 @@ ILboolean iSaveSgiInternal()
 
 	SaveBigInt(0);  // Dummy value
 
-	if (FName) {
-		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
-		iwrite(FName, 1, c);
-		c = 80 - c;
-		for (i = 0; i < c; i++) {
-			iputc(0);
-		}
-	}
-	else {
-		for (i = 0; i < 80; i++) {
-			iputc(0);
-		}
+	for (i = 0; i < 80; i++) {  // No image name
+		iputc(0);
 	}
 
 	SaveBigUInt(0);  // Colormap
@@ -680,7 +667,7 @@ ILboolean iSaveSgiInternal()
 		}
 	}
 	else {
-		iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
+		Saved = iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
 	}
 
 
@@ -689,7 +676,7 @@ ILboolean iSaveSgiInternal()
 	if (Temp != iCurImage)
 		ilCloseImage(Temp);
 
-	return IL_TRUE;
+	return Saved;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -706,7 +693,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	ScanLine = (ILubyte*)ialloc(w);
 	CompLine = (ILubyte*)ialloc(w * 2 + 1);  // Absolute worst case.
-	StartTable = (ILuint*)ialloc(h * numChannels * sizeof(ILuint));
+	StartTable = (ILuint*)icalloc(h * numChannels, sizeof(ILuint));
 	LenTable = (ILuint*)icalloc(h * numChannels, sizeof(ILuint));
 	if (!ScanLine || !CompLine || !StartTable || !LenTable) {
 		ifree(ScanLine);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 4973318..128ed2b 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -757,7 +757,7 @@ static ILboolean iSaveTargaStrings(const char *ID, const char *AuthName, const c
 	if (!Compress)
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		Rle = (ILubyte*)ialloc(TempImage->SizeOfData * 2 + 1);	// max
 		if (Rle == NULL) {
 			if (TempData != (char*)TempImage->Data)
 				ifree(TempData);
-- 
2.43.0


From 72a171ab00c36bbf933db3546fd9e8c750c20976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 10/72] fix: truncated or unreadable PSD, DDS, PNG, HDR, PCX,
 WBMP and TIFF data fails the load, and quantising small or unlucky images
 stays in bounds

---
 DevIL/src-IL/include/il_hdr.h     |   2 +-
 DevIL/src-IL/src/il_bits.cpp      |  20 +++---
 DevIL/src-IL/src/il_dds.cpp       |  94 +++++++++++++++++++------
 DevIL/src-IL/src/il_hdr.cpp       |  88 ++++++++++++++++-------
 DevIL/src-IL/src/il_neuquant.cpp  |  15 +++-
 DevIL/src-IL/src/il_pcx.cpp       |   8 ++-
 DevIL/src-IL/src/il_png.cpp       |   4 +-
 DevIL/src-IL/src/il_psd.cpp       | 113 ++++++++++++++++++++++--------
 DevIL/src-IL/src/il_quantizer.cpp |  20 +++++-
 DevIL/src-IL/src/il_tiff.cpp      |  32 +++++++--
 DevIL/src-IL/src/il_wbmp.cpp      |  16 ++++-
 11 files changed, 305 insertions(+), 107 deletions(-)

diff --git a/DevIL/src-IL/include/il_hdr.h b/DevIL/src-IL/include/il_hdr.h
index 2c30b0a..5f22cb0 100644
--- a/DevIL/src-IL/include/il_hdr.h
+++ b/DevIL/src-IL/include/il_hdr.h
@@ -38,6 +38,6 @@ ILboolean ilLoadHdrF(ILHANDLE file);
 ILboolean iLoadHdrInternal();
 ILboolean iSaveHdrInternal();
 
-void ReadScanline(ILubyte *scanline, ILuint w);
+ILboolean ReadScanline(ILubyte *scanline, ILuint w);
 
 #endif//HDR_H
diff --git a/DevIL/src-IL/src/il_bits.cpp b/DevIL/src-IL/src/il_bits.cpp
index 3cf717f..4a535fe 100644
--- a/DevIL/src-IL/src/il_bits.cpp
+++ b/DevIL/src-IL/src/il_bits.cpp
@@ -40,14 +40,14 @@ BITFILE *bfile(ILHANDLE File)
 {
 	BITFILE *ToReturn = NULL;
 
-	if (File != NULL) {
-		ToReturn = (BITFILE*)ialloc(sizeof(BITFILE));
-		if (ToReturn != NULL) {
-			ToReturn->File = File;
-			ToReturn->BitPos = itell() << 3;
-			ToReturn->ByteBitOff = 8;
-			ToReturn->Buff = 0;
-		}
+	// There is no handle when reading from memory.  All reads go through the
+	//  current input anyway.
+	ToReturn = (BITFILE*)ialloc(sizeof(BITFILE));
+	if (ToReturn != NULL) {
+		ToReturn->File = File;
+		ToReturn->BitPos = itell() << 3;
+		ToReturn->ByteBitOff = 8;
+		ToReturn->Buff = 0;
 	}
 
 	return ToReturn;
@@ -57,7 +57,7 @@ BITFILE *bfile(ILHANDLE File)
 // Closes an open BITFILE and frees memory for it.
 ILint bclose(BITFILE *BitFile)
 {
-	if (BitFile == NULL || BitFile->File == NULL)
+	if (BitFile == NULL)
 		return IL_EOF;
 
 	// Removed 01-26-2008.  The file will get closed later by
@@ -81,7 +81,7 @@ ILint bseek(BITFILE *BitFile, ILuint Offset, ILuint Mode)
 {
 	ILint KeepPos, Len;
 
-	if (BitFile == NULL || BitFile->File == NULL)
+	if (BitFile == NULL)
 		return 1;
 
 	switch (Mode)
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..955cc44 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -102,7 +102,8 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 {
 	ILint i;
 
-	iread(&Header->Signature, 1, 4);
+	if (iread(&Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Size1 = GetLittleUInt();
 	Header->Flags1 = GetLittleUInt();
 	Header->Height = GetLittleUInt();
@@ -127,10 +128,12 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 	Header->ddsCaps2 = GetLittleUInt();
 	Header->ddsCaps3 = GetLittleUInt();
 	Header->ddsCaps4 = GetLittleUInt();
-	Header->TextureStage = GetLittleUInt();
+	if (iread(&Header->TextureStage, sizeof(ILuint), 1) != 1)
+		return IL_FALSE;  // The header is not complete.
+	UInt(&Header->TextureStage);
 
-	if (Head.Depth == 0)
-		Head.Depth = 1;
+	if (Header->Depth == 0)
+		Header->Depth = 1;
 
 	return IL_TRUE;
 }
@@ -143,7 +146,9 @@ ILboolean iGetDXT10Head(DXT10HEAD *Header)
 	Header->resourceDimension = GetLittleUInt();
 	Header->miscFlag = GetLittleUInt();
 	Header->arraySize = GetLittleUInt();
-	Header->miscFlags2 = GetLittleUInt();
+	if (iread(&Header->miscFlags2, sizeof(ILuint), 1) != 1)
+		return IL_FALSE;
+	UInt(&Header->miscFlags2);
 
 	return IL_TRUE;
 }
@@ -154,11 +159,12 @@ ILboolean iIsValidDds()
 {
 	ILboolean	IsValid;
 	DDSHEAD		Head;
+	ILuint		Pos = itell();
 
-	iGetDdsHead(&Head);
-	iseek(-(ILint)sizeof(DDSHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	IsValid = iGetDdsHead(&Head);
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
-	IsValid = iCheckDds(&Head);
+	IsValid = IsValid && iCheckDds(&Head);
 
 	return IsValid;
 }
@@ -823,6 +829,49 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 }
 
 
+// Number of bytes the decompressors take from CompData for the current
+//  Width, Height and Depth.
+static size_t iDdsDataSize(ILuint CompFormat, ILboolean IsDXT10)
+{
+	size_t Pixels = (size_t)Width * Height * Depth;
+	size_t Blocks = (size_t)((Width + 3) / 4) * ((Height + 3) / 4) * Depth;
+
+	if (IsDXT10)
+		return Pixels * 4 * (Has16BitComponents ? 2 : 1);
+
+	switch (CompFormat)
+	{
+		case PF_ARGB:
+		case PF_RGB:
+		case PF_LUMINANCE:
+		case PF_LUMINANCE_ALPHA:
+			return Pixels * (Head.RGBBitCount / 8);
+		case PF_DXT1:
+		case PF_ATI1N:
+			return Blocks * 8;
+		case PF_DXT2:
+		case PF_DXT3:
+		case PF_DXT4:
+		case PF_DXT5:
+		case PF_3DC:
+		case PF_RXGB:
+			return Blocks * 16;
+		case PF_R16F:
+			return Pixels * 2;
+		case PF_G16R16F:
+		case PF_R32F:
+			return Pixels * 4;
+		case PF_A16B16G16R16:
+		case PF_A16B16G16R16F:
+		case PF_G32R32F:
+			return Pixels * 8;
+		case PF_A32B32G32R32F:
+			return Pixels * 16;
+	}
+	return 0;
+}
+
+
 // Reads the compressed data
 ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 {
@@ -838,6 +887,11 @@ ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 	if (Head.Flags1 & DDS_LINEARSIZE) {
 		//Head.LinearSize = Head.LinearSize * Depth;
 
+		if (Head.LinearSize < iDdsDataSize(CompFormat, IsDXT10)) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
+
 		CompData = (ILubyte*)ialloc(Head.LinearSize);
 		if (CompData == NULL) {
 			return IL_FALSE;
@@ -855,7 +909,7 @@ ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 		else
 			Bps = Width * Head.RGBBitCount / 8;
 		CompSize = Bps * Height * Depth;
-		if (CompSize == 0) {
+		if (CompSize == 0 || CompSize < iDdsDataSize(CompFormat, IsDXT10)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -1071,8 +1125,8 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 {
 	ILuint	i, CompFactor=0;
 	ILubyte	Bpp, Channels, Bpc;
-	ILimage	*StartImage, *TempImage;
-	ILuint	LastLinear;
+	ILimage	*StartImage;
+	ILuint	LastLinear = Head.LinearSize;
 	ILuint	minW, minH;
 
 	ILboolean isCompressed = IL_FALSE;
@@ -1189,7 +1243,7 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && isCompressed == IL_TRUE && CompData) {
 			Image->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
 			if (Image->DxtcData == NULL)
-				return IL_FALSE;
+				goto mip_fail;
 			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
 			Image->DxtcSize = Head.LinearSize;
 			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
@@ -1206,14 +1260,10 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 
 mip_fail:
 	Image = StartImage;
-	StartImage = StartImage->Mipmaps;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	if (Image->Mipmaps)
+		ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
+	Head.LinearSize = LastLinear;
 	return IL_FALSE;
 }
 
@@ -1960,7 +2010,7 @@ ILboolean DecompressARGB(ILuint CompFormat)
 		//but the old version crashed in release build under
 		//winxp (and xp is right to stop this code - I always
 		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
+		if (TempBpp < 4) { //less than 4 byte to read?
 			if (TempBpp == 3) { //this branch is extra-SLOOOW
 				ReadI =
 					*Temp
@@ -1998,7 +2048,7 @@ ILboolean DecompressARGB(ILuint CompFormat)
 				Image->Data[i+1] = Image->Data[i+1] ? 0xFF : 0x00;
 			}
 			else if (AlphaL >= 4) {
-				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+3] >> 4);
+				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+1] >> 4);
 			}
 		}
 	}
@@ -2065,7 +2115,7 @@ ILboolean DecompressARGB16(ILuint CompFormat)
 		//but the old version crashed in release build under
 		//winxp (and xp is right to stop this code - I always
 		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
+		if (TempBpp < 4) { //less than 4 byte to read?
 			if (TempBpp == 3) { //this branch is extra-SLOOOW
 				ReadI =
 					*Temp
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..852e917 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -226,8 +226,16 @@ ILboolean iLoadHdrInternal()
 
 	data = (ILfloat*)iCurImage->Data;
 	scanline = (ILubyte*)ialloc(Header.Width*4);
+	if (scanline == NULL) {
+		iUnCache();
+		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
-		ReadScanline(scanline, Header.Width);
+		if (!ReadScanline(scanline, Header.Width)) {
+			iUnCache();
+			ifree(scanline);
+			return IL_FALSE;
+		}
 
 		//convert hdrs internal format to floats
 		for (j = 0; j < 4*Header.Width; j += 4) {
@@ -260,14 +268,17 @@ ILboolean iLoadHdrInternal()
 	return ilFixImage();
 }
 
-void ReadScanline(ILubyte *scanline, ILuint w) {
+ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
 	ILubyte *runner;
+	ILubyte rgbe[4];
 	ILuint r, g, b, e, read, shift;
 
-	r = igetc();
-	g = igetc();
-	b = igetc();
-	e = igetc();
+	if (iread(rgbe, 1, 4) != 4)
+		return IL_FALSE;
+	r = rgbe[0];
+	g = rgbe[1];
+	b = rgbe[2];
+	e = rgbe[3];
 
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
@@ -277,13 +288,21 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 		ILuint j, t, k;
 		if (length > w)
 			length = w; //fix broken files
+		if (length < w)
+			memset(scanline, 0, w * 4);
 		for (k = 0; k < 4; ++k) {
 			runner = scanline + k;
 			j = 0;
 			while (j < length) {
-				t = igetc();
+				ILint c = igetc();
+				if (c == IL_EOF)
+					return IL_FALSE;
+				t = c;
 				if (t > 128) { //Run?
-					ILubyte val = igetc();
+					c = igetc();
+					if (c == IL_EOF)
+						return IL_FALSE;
+					ILubyte val = c;
 					t &= 127;
 					//copy current byte
 					while (t > 0 && j < length) {
@@ -296,7 +315,10 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				else { //No Run.
 					//read new bytes
 					while (t > 0 && j < length) {
-						*runner = igetc();
+						c = igetc();
+						if (c == IL_EOF)
+							return IL_FALSE;
+						*runner = c;
 						runner += 4;
 						--t;
 						++j;
@@ -304,7 +326,7 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 			}
 		}
-		return; //done decoding a scanline in separated format
+		return IL_TRUE; //done decoding a scanline in separated format
 	}
 
 	//if we come here, we are dealing with old-style scanlines
@@ -313,10 +335,12 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 	runner = scanline;
 	while (read < w) {
 		if (read != 0) {
-			r = igetc();
-			g = igetc();
-			b = igetc();
-			e = igetc();
+			if (iread(rgbe, 1, 4) != 4)
+				return IL_FALSE;
+			r = rgbe[0];
+			g = rgbe[1];
+			b = rgbe[2];
+			e = rgbe[3];
 		}
 
 		//if all three mantissas are 1, then this is a rle
@@ -324,6 +348,10 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 		if (r == 1 && g == 1 && b == 1) {
 			ILuint length = e;
 			ILuint j;
+			if (read == 0 || shift > 24) { //nothing to repeat
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			for (j = length << shift; j > 0 && read < w; --j) {
 				memcpy(runner, runner - 4, 4);
 				runner += 4;
@@ -346,6 +374,8 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			++read;
 		}
 	}
+
+	return IL_TRUE;
 }
 
 
@@ -584,19 +614,27 @@ ILboolean iSaveHdrInternal()
 	stHeader.programtype[0] = 0;
 	stHeader.valid = 0;
 
-	if (iCurImage->Format != IL_UNSIGNED_BYTE) {
-		TempImage = iConvertImage(iCurImage, IL_RGB, IL_FLOAT);
-		if (TempImage == NULL)
-			return IL_FALSE;
-	}
-	else
-		TempImage = iCurImage;
+	// This is always a new image.
+	TempImage = iConvertImage(iCurImage, IL_RGB, IL_FLOAT);
+	if (TempImage == NULL)
+		return IL_FALSE;
 
-	if (!RGBE_WriteHeader(TempImage->Width, TempImage->Height, &stHeader))
+	if (!RGBE_WriteHeader(TempImage->Width, TempImage->Height, &stHeader)) {
+		if (iCurImage != TempImage)
+			ilCloseImage(TempImage);
 		return IL_FALSE;
+	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-		iFlipBuffer(TempImage->Data, TempImage->Depth, TempImage->Bps, TempImage->Height);
+	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
+		ILubyte *Flipped = iGetFlipped(TempImage);
+		if (Flipped == NULL) {
+			if (iCurImage != TempImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+		ifree(TempImage->Data);
+		TempImage->Data = Flipped;
+	}
 	data = (ILfloat*)TempImage->Data;
 
 	if ((TempImage->Width < 8)||(TempImage->Width > 0x7fff)) {
@@ -621,7 +659,7 @@ ILboolean iSaveHdrInternal()
 		rgbe[2] = TempImage->Width >> 8;
 		rgbe[3] = TempImage->Width & 0xFF;
 		if (iwrite(rgbe, sizeof(rgbe), 1) < 1) {
-			free(buffer);
+			ifree(buffer);
 			if (iCurImage != TempImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index c00f4a0..55d4bf4 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -349,6 +349,8 @@ void learn()
 	lim = thepicture + lengthcount;
 	samplepixels = lengthcount/(3*samplefac);
 	delta = samplepixels/ncycles;
+	if (delta == 0)  // Fewer samples than learning cycles
+		delta = 1;
 	alpha = initalpha;
 	radius = initradius;
 	
@@ -379,7 +381,7 @@ void learn()
 		if (rad) alterneigh(rad,j,b,g,r);   // alter neighbours
 
 		p += step;
-		if (p >= lim) p -= lengthcount;
+		while (p >= lim) p -= lengthcount;
 	
 		i++;
 		if (i%delta == 0) {	
@@ -427,11 +429,18 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 		ifree(NewImage);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(TempImage);
+		ilCloseImage(NewImage);
+		return NULL;
+	}
+	ifree(NewImage->Pal.Palette);  // The new palette replaces the old one.
+	NewImage->Pal.Palette = NULL;
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..b44d543 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -83,7 +83,8 @@ ILboolean iGetPcxHead(PCXHEAD *Head)
 	Head->PaletteInfo = GetLittleUShort();
 	Head->HScreenSize = GetLittleUShort();
 	Head->VScreenSize = GetLittleUShort();
-	iread(Head->Filler, 1, 54);
+	if (iread(Head->Filler, 1, 54) != 54)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -319,7 +320,10 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 	// Read in the palette
 	if (Header->Version == 5 && iCurImage->Bpp == 1) {
 		x = itell();
-		if (iread(&ByteHead, 1, 1) == 0) {  // If true, assume that we have a luminance image.
+		if (iread(&ByteHead, 1, 1) == 0) {
+			if (!ieof())  // Could not be read, which is different from not being there.
+				goto file_read_error;
+			// If true, assume that we have a luminance image.
 			ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..82743a6 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -173,8 +173,8 @@ ILboolean iLoadPngInternal()
 
 static void png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != (ILuint)length)
+		png_error(png_ptr, "Read error");
 	return;
 }
 
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..5e9c12e 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -31,11 +31,11 @@ static float ushort_to_float(ILushort val)
 
 static ILubyte float_to_ubyte(float val)
 {
-	return (ILubyte)(val * 255.0f);
+	return (ILubyte)(val * 255.0f + 0.5f);
 }
 static ILushort float_to_ushort(float val)
 {
-	return (ILushort)(val * 65535.0f);
+	return (ILushort)(val * 65535.0f + 0.5f);
 }
 
 
@@ -90,9 +90,11 @@ ILboolean ilIsValidPsdL(const void *Lump, ILuint Size)
 // Internal function used to get the Psd header from the current file.
 ILboolean iGetPsdHead(PSDHEAD *Header)
 {
-	iread(Header->Signature, 1, 4);
+	if (iread(Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Version = GetBigUShort();
-	iread(Header->Reserved, 1, 6);
+	if (iread(Header->Reserved, 1, 6) != 6)
+		return IL_FALSE;
 	Header->Channels = GetBigUShort();
 	Header->Height = GetBigUInt();
 	Header->Width = GetBigUInt();
@@ -108,10 +110,13 @@ ILboolean iIsValidPsd()
 {
 	PSDHEAD	Head;
 
-	iGetPsdHead(&Head);
-	iseek(-(ILint)sizeof(PSDHEAD), IL_SEEK_CUR);
+	ILuint	Pos = itell();
+	ILboolean	bRead;
+
+	bRead = iGetPsdHead(&Head);
+	iseek(Pos, IL_SEEK_SET);
 
-	return iCheckPsd(&Head);
+	return bRead && iCheckPsd(&Head);
 }
 
 
@@ -191,8 +196,7 @@ ILboolean iLoadPsdInternal()
 		return IL_FALSE;
 	}
 
-	iGetPsdHead(&Header);
-	if (!iCheckPsd(&Header)) {
+	if (!iGetPsdHead(&Header) || !iCheckPsd(&Header)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -251,7 +255,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
 	if (Head->Channels != 1) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -263,7 +267,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 
 	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
@@ -301,9 +305,8 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 
 	ResourceSize = GetBigUInt();  // Read the 'image resources section'
 	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
-		return IL_FALSE;
-	}
+	if (Resources == NULL)
+		goto cleanup_error;
 	if (iread(Resources, 1, ResourceSize) != ResourceSize)
 		goto cleanup_error;
 
@@ -344,7 +347,8 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	ParseResources(ResourceSize, Resources);
+	if (!ParseResources(ResourceSize, Resources))
+		goto cleanup_error;
 	ifree(Resources);
 	Resources = NULL;
 
@@ -399,7 +403,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 	else
 	{
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 
 	switch (Head->Depth)
@@ -412,7 +416,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
 		goto cleanup_error;
@@ -467,7 +471,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -479,7 +483,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
 		goto cleanup_error;
@@ -533,6 +537,8 @@ ILuint *GetCompChanLen(PSDHEAD *Head)
 	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
 	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
 	if (RleTable == NULL || ChanLen == NULL) {
+		ifree(RleTable);
+		ifree(ChanLen);
 		return NULL;
 	}
 
@@ -569,7 +575,7 @@ static const ILuint READ_COMPRESSED_ERROR_FILE_READ_ERROR	= 2;
 static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte* Channel)
 {
 	ILuint		i;
-	ILint		Run;
+	ILint		Run, Head;
 	ILboolean	PreCache = IL_FALSE;
 	ILbyte		HeadByte;
 
@@ -579,10 +585,17 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 	if (PreCache)
 		iPreCache(ChanLen);
 	for (i = 0; i < Size; ) {
-		HeadByte = igetc();
+		Head = igetc();
+		if (Head == IL_EOF)
+		{
+			if (PreCache)
+				iUnCache();
+			return READ_COMPRESSED_ERROR_FILE_READ_ERROR;
+		}
+		HeadByte = (ILbyte)Head;
 
 		if (HeadByte >= 0) {  //  && HeadByte <= 127
-			if (i + HeadByte > Size)
+			if (i + HeadByte + 1 > Size)
 			{
 				if (PreCache)
 					iUnCache();
@@ -653,11 +666,15 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	// @TODO: Add support for this in, though I have yet to run across a .psd
 	//	file that uses this.
 	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
+		ifree(Channel);
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
 
 	if (!Compressed) {
+		// The alpha channel starts out solid, as below.
+		if (Head->Channels > NumChan && iCurImage->Bpp == 4)
+			memset(iCurImage->Data, 255, iCurImage->SizeOfData);
 		if (iCurImage->Bpc == 1) {
 			for (c = 0; c < NumChan; c++) {
 				i = 0;
@@ -717,6 +734,9 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				iCurImage->Bps /= 2;
 				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
 					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
+					 #ifndef WORDS_BIGENDIAN
+						iSwapUShort(ShortPtr+i);
+					 #endif
 						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
 						float newVal = ushort_to_float(ShortPtr[i]);
 						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
@@ -728,6 +748,10 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	}
 	else {
 		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL) {
+			ifree(Channel);
+			return IL_FALSE;
+		}
 
 		Size = Head->Width * Head->Height;
 		for (c = 0; c < NumChan; c++) {
@@ -817,6 +841,10 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 		NameLen = *Resources++;
 		// NameLen + the byte it occupies must be padded to an even number, so NameLen must be odd.
 		NameLen = NameLen + (NameLen & 1 ? 0 : 1);
+		if (ResourceSize < (ILuint)(4 + 2 + 1 + NameLen + 4)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		Resources += NameLen;
 
 		// Get the resource data size.
@@ -833,6 +861,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
+				ifree(iCurImage->Profile);  // Only the last one counts.
+				iCurImage->ProfileSize = 0;
 				iCurImage->Profile = (ILubyte*)ialloc(Size);
 				if (iCurImage->Profile == NULL) {
 					return IL_FALSE;
@@ -847,6 +877,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 
 		if (Size & 1)  // Must be an even number.
 			Size++;
+		if (Size > ResourceSize)
+			return IL_TRUE;  // Nothing after this one.
 		ResourceSize -= Size;
 		Resources += Size;
 	}
@@ -860,7 +892,8 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 	ILuint		i;
 	ILushort	*ShortPtr;
 	ILbyte		HeadByte;
-	ILint		Run;
+	ILint		Run, Byte;
+	ILuint		Size = Head->Width * Head->Height;
 
 	ShortPtr = (ILushort*)Buffer;
 
@@ -875,10 +908,17 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 		}
 	}
 	else {
-		for (i = 0; i < Head->Width * Head->Height; ) {
-			HeadByte = igetc();
+		for (i = 0; i < Size; ) {
+			Byte = igetc();
+			if (Byte == IL_EOF)
+				return IL_FALSE;
+			HeadByte = (ILbyte)Byte;
 
 			if (HeadByte >= 0) {  //  && HeadByte <= 127
+				if (i + HeadByte + 1 > Size) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
 					return IL_FALSE;
 				i += HeadByte + 1;
@@ -887,6 +927,10 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 				Run = igetc();
 				if (Run == IL_EOF)
 					return IL_FALSE;
+				if (i + (-HeadByte + 1) > Size) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				memset(Buffer + i, Run, -HeadByte + 1);
 				i += -HeadByte + 1;
 			}
@@ -1013,6 +1057,8 @@ ILboolean iSavePsdInternal()
 			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 	}
 
@@ -1020,8 +1066,11 @@ ILboolean iSavePsdInternal()
 		// @TODO: We're currently making a potentially fatal assumption that
 		//	iConvertImage was not called if the format is IL_COLOUR_INDEX.
 		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-		if (TempPal == NULL)
+		if (TempPal == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 		SaveBigInt(768);
 
 		// Have to save the palette in a planar format.
@@ -1029,9 +1078,14 @@ ILboolean iSavePsdInternal()
 			for (i = c; i < TempPal->PalSize; i += 3) {
 				iputc(TempPal->Palette[i]);
 			}
+			// The table always has 256 entries.
+			for (; i < 768; i += 3) {
+				iputc(0);
+			}
 		}
 
 		ifree(TempPal->Palette);
+		ifree(TempPal);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
@@ -1046,7 +1100,8 @@ ILboolean iSavePsdInternal()
 	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
@@ -1063,13 +1118,11 @@ ILboolean iSavePsdInternal()
 	}
 	else {  // TempImage->Bpc == 2
 		ShortPtr = (ILushort*)TempData;
-		TempImage->SizeOfPlane /= 2;
 		for (c = 0; c < TempImage->Bpp; c++) {
-			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
+			for (i = c; i < TempImage->SizeOfPlane / 2; i += TempImage->Bpp) {
 				SaveBigUShort(ShortPtr[i]);
 			}
 		}
-		TempImage->SizeOfPlane *= 2;
 	}
 
 	if (TempData != TempImage->Data)
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..9e7b17c 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -448,8 +448,13 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	if (!NewData || !Palette) {
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
+	imemclear(Palette, 3 * num_alloced_colors);
+	imemclear(lut_r, sizeof(lut_r));
+	imemclear(lut_g, sizeof(lut_g));
+	imemclear(lut_b, sizeof(lut_b));
 
 	Ir = (ILubyte*)ialloc(Width * Height * Depth);
 	Ig = (ILubyte*)ialloc(Width * Height * Depth);
@@ -460,6 +465,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(Ib);
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -614,13 +620,22 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
 	if (NewImage == NULL) {
+		ifree(NewData);
+		ifree(Palette);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		ifree(NewData);
+		ifree(Palette);
+		return NULL;
+	}
+	ifree(NewImage->Pal.Palette);  // The new palette replaces the old one.
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
@@ -632,6 +647,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	return NewImage;
 
 error_label:
+	ilCloseImage(TempImage);
 	ifree(NewData);
 	ifree(Palette);
 	ifree(Ig);
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index d4253ba..05e68b4 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -268,6 +268,7 @@ ILboolean iLoadTiffInternal()
 	void	 *Buffer;
 	ILimage  *Image, *TempImage;
 	ILushort si;
+	ILboolean Converted;
         ILfloat  x_position, x_resolution, y_position, y_resolution;
 	//TIFFRGBAImage img;
 	//char emsg[1024];
@@ -369,7 +370,7 @@ ILboolean iLoadTiffInternal()
 				Image = iCurImage;
 			}
 			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
+				Image->Next = ilNewImage(w, h, 1, 1, bitspersample == 16 ? 2 : 1);
 				if (Image->Next == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
@@ -386,9 +387,13 @@ ILboolean iLoadTiffInternal()
 				TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue);
 
 				Image->Format = IL_COLOUR_INDEX;
+				Image->Pal.Palette = (ILubyte*)ialloc((count)*3);
+				if (Image->Pal.Palette == NULL) {
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 				Image->Pal.PalSize = (count)*3;
 				Image->Pal.PalType = IL_PAL_RGB24;
-				Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
 				entry = Image->Pal.Palette;
 				for (j = 0; j < count; ++j) {
 					entry[0] = (ILubyte)(red[j] >> 8);
@@ -403,6 +408,10 @@ ILboolean iLoadTiffInternal()
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			if (bitspersample == 8 || bitspersample == 16) {
 				ILubyte *dat = Image->Data;
@@ -431,7 +440,7 @@ ILboolean iLoadTiffInternal()
 							//making up a pixel can be inverted independently
 							for (k = 0; k < Image->Bps; ++k)
 								dat[k] = ~strip[t2 + k];
-							dat += w;
+							dat += Image->Bps;
 						}
 					}
 					else
@@ -514,7 +523,7 @@ ILboolean iLoadTiffInternal()
 				Image = iCurImage;
 			}
 			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
+				Image->Next = ilNewImage(w, h, 1, 3, bitspersample == 16 ? 2 : 1);
 				if(Image->Next == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
@@ -526,6 +535,10 @@ ILboolean iLoadTiffInternal()
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			dat = Image->Data;
 			for (y = 0; y < h; y += rowsperstrip) {
@@ -623,20 +636,21 @@ ILboolean iLoadTiffInternal()
 			//TODO: put switch into the loop??
 			TempImage = iCurImage;
 			iCurImage = Image; //ilConvertImage() converts iCurImage
+			Converted = IL_TRUE;
 			switch (samplesperpixel)
 			{
 				case 1:
 					//added 2003-08-31 to keep palettized tiffs colored
 					if(photometric != 3)
-						ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
 					else //strip alpha as tiff supports no alpha palettes
-						ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 					break;
 					
 				case 3:
 					//TODO: why the ifdef??
 #ifdef __LITTLE_ENDIAN__
-					ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+					Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 #endif			
 					break; 
 					
@@ -657,6 +671,10 @@ ILboolean iLoadTiffInternal()
 					break;
 			}
 			iCurImage = TempImage;
+			if (!Converted) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 			
 		} //else not directly supported format
 
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..26bba97 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -104,7 +104,10 @@ ILboolean iLoadWbmpInternal(void)
 
 	// Reads the bits
 	for (i = 0; i < iCurImage->Height; i++) {
-		bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
+		if (bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File) != (ILint)iCurImage->Width) {
+			bclose(File);
+			return IL_FALSE;
+		}
 		//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
 		bread(Padding, 1, BitPadding, File);  // Skip padding bits.
 	}
@@ -116,17 +119,19 @@ ILboolean iLoadWbmpInternal(void)
 
 	bclose(File);
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
 ILuint WbmpGetMultibyte()
 {
 	ILuint Val = 0, i;
-	ILubyte Cur;
+	ILint Cur;
 
 	for (i = 0; i < 5; i++) {  // Should not be more than 5 bytes.
 		Cur = igetc();
+		if (Cur == IL_EOF)
+			return 0;
 		Val = (Val << 7) | (Cur & 0x7F);  // Drop the MSB of Cur.
 		if (!(Cur & 0x80)) {  // Check the MSB and break if 0.
 			break;
@@ -225,6 +230,11 @@ ILboolean iSaveWbmpInternal()
 	ILubyte	Val;
 	ILubyte	*TempData;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	iputc(0);  // First two header values
 	iputc(0);  //  must be 0.
 
-- 
2.43.0


From dc9d1cafccd150a83fedc0fe77175fd29cfc1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 11/72] fix: saving DDS, TIFF, VTF, PCX and PNG leaves the
 image alone, stays in bounds and writes what the header promises

---
 DevIL/src-IL/src/il_dds-save.cpp | 28 +++++++++++-----
 DevIL/src-IL/src/il_pcx.cpp      | 17 +++++-----
 DevIL/src-IL/src/il_png.cpp      |  2 ++
 DevIL/src-IL/src/il_tiff.cpp     | 56 +++++++++++++++-----------------
 DevIL/src-IL/src/il_vtf.cpp      | 50 ++++++++--------------------
 5 files changed, 71 insertions(+), 82 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index f17862f..8cdd02b 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -136,16 +136,18 @@ ILuint GetCubemapInfo(ILimage* image, ILint* faces)
 ILboolean iSaveDdsInternal()
 {
 	ILenum	DXTCFormat;
-	ILuint	counter, numMipMaps, image, numFaces, i;
+	ILuint	counter, numMipMaps, numFaces, i;
 	ILubyte	*CurData = NULL;
+	ILimage	*StartImage = iCurImage;
+	ILboolean	Written;
 	ILint	CubeTable[6] = { 0 };
 	ILuint	CubeFlags;
 
 	CubeFlags = GetCubemapInfo(iCurImage, CubeTable);
 
-	image = ilGetInteger(IL_CUR_IMAGE);
 	DXTCFormat = iGetInt(IL_DXTC_FORMAT);
-	WriteHeader(iCurImage, DXTCFormat, CubeFlags);
+	if (!WriteHeader(iCurImage, DXTCFormat, CubeFlags))
+		return IL_FALSE;
 
 	if (CubeFlags != 0)
 		numFaces = ilGetInteger(IL_NUM_FACES); // Should always be 5 for now
@@ -156,7 +158,7 @@ ILboolean iSaveDdsInternal()
 
 	for (i = 0; i <= numFaces; ++i) {
 		for (counter = 0; counter <= numMipMaps; counter++) {
-			ilBindImage(image);
+			iCurImage = StartImage;
 			ilActiveImage(CubeTable[i]);
 			ilActiveMipmap(counter);
 
@@ -165,21 +167,29 @@ ILboolean iSaveDdsInternal()
 				iCurImage->Data = iGetFlipped(iCurImage);
 				if (iCurImage->Data == NULL) {
 					iCurImage->Data = CurData;
+					iCurImage = StartImage;
 					return IL_FALSE;
 				}
 			}
 
-			if (!Compress(iCurImage, DXTCFormat))
-				return IL_FALSE;
+			Written = Compress(iCurImage, DXTCFormat) != 0;
 
 			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 				ifree(iCurImage->Data);
 				iCurImage->Data = CurData;
 			}
+
+			if (!Written) {
+				iCurImage = StartImage;
+				return IL_FALSE;
+			}
 		}
 
 	}
 
+	// Leave the image that was saved as the active one.
+	iCurImage = StartImage;
+
 	return IL_TRUE;
 }
 
@@ -965,12 +975,14 @@ ILboolean Get3DcBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos
 
 	for (y = 0; y < 4; y++) {
 		for (x = 0; x < 4; x++) {
-			if (x < Image->Width && y < Image->Height)
+			if (XPos + x < Image->Width && YPos + y < Image->Height)
                 Block[i++] = Data[Offset + 2*x];
             else
                 Block[i++] = Data[Offset];
 		}
-        Offset += 2*Image->Width;
+		// We do not want to read past the end of the image.
+		if (YPos + y + 1 < Image->Height)
+			Offset += 2*Image->Width;
 	}
 
 	return IL_TRUE;
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index b44d543..679a33b 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -538,7 +538,7 @@ ILuint ilSavePcxL(void *Lump, ILuint Size)
 // Internal function used to save the .pcx.
 ILboolean iSavePcxInternal()
 {
-	ILuint	i, c, PalSize;
+	ILuint	i, c, PalSize = 0;
 	ILpal	*TempPal;
 	ILimage	*TempImage = iCurImage;
 	ILubyte	*TempData;
@@ -607,7 +607,7 @@ ILboolean iSavePcxInternal()
 	}
 	iputc(0x0);  // Reserved - always 0
 
-	iputc(iCurImage->Bpp);  // Number of planes - only 1 is supported right now
+	iputc(TempImage->Bpp);  // Number of planes - only 1 is supported right now
 
 	SaveLittleUShort((ILushort)(iCurImage->Width & 1 ? iCurImage->Width + 1 : iCurImage->Width));  // Bps
 	SaveLittleUShort(0x1);  // Palette type - ignored?
@@ -632,31 +632,32 @@ ILboolean iSavePcxInternal()
 	if (TempImage->Format == IL_COLOUR_INDEX) {
 		// If the palette in .pcx format, write it directly
 		if (TempImage->Pal.PalType == IL_PAL_RGB24) {
-			iwrite(TempImage->Pal.Palette, 1, TempImage->Pal.PalSize);
+			PalSize = IL_MIN(TempImage->Pal.PalSize, 768);
+			iwrite(TempImage->Pal.Palette, 1, PalSize);
 		}
 		else {
 			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
 			if (TempPal == NULL) {
-				if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+				if (TempData != TempImage->Data)
 					ifree(TempData);
 				if (TempImage != iCurImage)
 					ilCloseImage(TempImage);
 				return IL_FALSE;
 			}
 
-			iwrite(TempPal->Palette, 1, TempPal->PalSize);
+			PalSize = IL_MIN(TempPal->PalSize, 768);
+			iwrite(TempPal->Palette, 1, PalSize);
 			ifree(TempPal->Palette);
 			ifree(TempPal);
 		}
 	}
 
 	// If the palette is not all 256 colours, we have to pad it.
-	PalSize = 768 - iCurImage->Pal.PalSize;
-	for (i = 0; i < PalSize; i++) {
+	for (i = PalSize; i < 768; i++) {
 		iputc(0x0);
 	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+	if (TempData != TempImage->Data)
 		ifree(TempData);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 82743a6..5cdff18 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -606,6 +606,8 @@ ILboolean iSavePngInternal()
         }
 
 		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL)
+			goto error_label;
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
         ilClosePal(TempPal);
 
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 05e68b4..2263815 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -946,15 +946,14 @@ ILuint ilSaveTiffL(void *Lump, ILuint Size)
 // Internal function used to save the Tiff.
 ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 {
-	ILenum	Format;
 	ILenum	Compression;
 	ILuint	ixLine;
 	TIFF	*File;
 	char	Description[512];
 	ILimage *TempImage;
 	const char	*str;
-	ILboolean SwapColors;
-	ILubyte *OldData;
+	ILubyte *Data;
+	ILenum	Format;
 
 	if(iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -984,6 +983,13 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 			return IL_FALSE;
 		}
 	}
+	else if (iCurImage->Format == IL_BGR || iCurImage->Format == IL_BGRA) {
+		Format = iCurImage->Format == IL_BGR ? IL_RGB : IL_RGBA;
+		TempImage = iConvertImage(iCurImage, Format, iCurImage->Type);
+		if (TempImage == NULL) {
+			return IL_FALSE;
+		}
+	}
 	else {
 		TempImage = iCurImage;
 	}
@@ -998,6 +1004,8 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	File = iTIFFOpen((char*)"w");
 	if (File == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return IL_FALSE;
 	}
 
@@ -1010,10 +1018,10 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	TIFFSetField(File, TIFFTAG_IMAGEWIDTH, TempImage->Width);
 	TIFFSetField(File, TIFFTAG_IMAGELENGTH, TempImage->Height);
 	TIFFSetField(File, TIFFTAG_COMPRESSION, Compression);
-	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
+	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, TempImage->Bpp < 3 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB);
 	TIFFSetField(File, TIFFTAG_BITSPERSAMPLE, TempImage->Bpc << 3);
 	TIFFSetField(File, TIFFTAG_SAMPLESPERPIXEL, TempImage->Bpp);
-	if (TempImage->Bpp == 4) //TODO: LUMINANCE, LUMINANCE_ALPHA
+	if (TempImage->Bpp == 2 || TempImage->Bpp == 4)
 		TIFFSetField(File, TIFFTAG_MATTEING, 1);
 	TIFFSetField(File, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
 	TIFFSetField(File, TIFFTAG_ROWSPERSTRIP, 1);
@@ -1030,7 +1038,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 
 
 	str = iGetString(IL_TIF_AUTHNAME_STRING);
-	if (iGetString(IL_TIF_AUTHNAME_STRING)) {
+	if (str) {
 		TIFFSetField(File, TIFFTAG_ARTIST, str);
 		ifree(str);
 	}
@@ -1055,46 +1063,36 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// and set it always to normal view
 	TIFFSetField(File, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		ILubyte* Data = iGetFlipped(TempImage);
-		OldData = TempImage->Data;
-		TempImage->Data = Data;
+		Data = iGetFlipped(TempImage);
+		if (Data == NULL) {
+			TIFFClose(File);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
 	}
 	else
-		OldData = TempImage->Data;
+		Data = TempImage->Data;
 
 	/*
 	 TIFFSetField(File, TIFFTAG_ORIENTATION,
 				  TempImage->Origin == IL_ORIGIN_UPPER_LEFT ? ORIENTATION_TOPLEFT : ORIENTATION_BOTLEFT);
 	 */
 
-	Format = TempImage->Format;
-	SwapColors = (Format == IL_BGR || Format == IL_BGRA);
-	if (SwapColors)
- 		ilSwapColours();
-
 	for (ixLine = 0; ixLine < TempImage->Height; ++ixLine) {
-		if (TIFFWriteScanline(File, TempImage->Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
+		if (TIFFWriteScanline(File, Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
 			TIFFClose(File);
 			ilSetError(IL_LIB_TIFF_ERROR);
-			if (SwapColors)
-				ilSwapColours();
-			if (TempImage->Data != OldData) {
-				ifree( TempImage->Data );
-				TempImage->Data = OldData;
-			}
+			if (Data != TempImage->Data)
+				ifree(Data);
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
 
-	if (SwapColors)
- 		ilSwapColours();
-
-	if (TempImage->Data != OldData) {
-		ifree(TempImage->Data);
-		TempImage->Data = OldData;
-	}
+	if (Data != TempImage->Data)
+		ifree(Data);
 
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..a8422ac 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -782,8 +782,9 @@ ILuint ilSaveVtfL(void *Lump, ILuint Size)
 ILboolean iSaveVtfInternal()
 {
 	ILimage	*TempImage = iCurImage;
-	ILubyte	*TempData, *CompData;
-	ILuint	Format, i, CompSize;
+	ILubyte	*TempData, *OldData;
+	ILuint	Format, i;
+	ILboolean	Written;
 	ILenum	Compression;
 
 	// Find out if the user has specified to use DXT compression.
@@ -827,7 +828,7 @@ ILboolean iSaveVtfInternal()
 			Format = IMAGE_FORMAT_RGBA16161616;
 		}
 		else if (TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
-			TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
 		}
@@ -853,7 +854,8 @@ ILboolean iSaveVtfInternal()
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
@@ -905,40 +907,14 @@ ILboolean iSaveVtfInternal()
 
 	if (Compression == IL_DXT_NO_COMP) {
 		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
-			return IL_FALSE;
+		Written = iwrite(TempData, TempImage->SizeOfData, 1) == 1;
 	}
 	else {  // Do DXT compression here and write.
-		// We have to find out how much we are writing first.
-		CompSize = ilGetDXTCData(NULL, 0, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-
-		// DXT compress the data.
-		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		// Finally write the data.
-		if (iwrite(CompData, CompSize, 1) != 1) {
-			ifree(CompData);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
+		// ilGetDXTCData would redirect the output, so compress straight into the file.
+		OldData = TempImage->Data;
+		TempImage->Data = TempData;
+		Written = Compress(TempImage, Compression) != 0;
+		TempImage->Data = OldData;
 	}
 
 	if (TempData != TempImage->Data)
@@ -946,7 +922,7 @@ ILboolean iSaveVtfInternal()
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return Written;
 }
 
 
-- 
2.43.0


From b18d157a8440010e4615ca67788e74b9c6d91cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 12/72] fix: VTF loading sizes compressed blocks properly,
 checks what it read and returns to the image it was loading

---
 DevIL/src-IL/src/il_dds-save.cpp |  5 +-
 DevIL/src-IL/src/il_vtf.cpp      | 96 +++++++++++++++++++-------------
 2 files changed, 60 insertions(+), 41 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 8cdd02b..468b676 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -752,8 +752,11 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 
 				// Get compressed data here.
 				BlockData = ilSquishCompressDXT(ByteData, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
-				if (BlockData == NULL)
+				if (BlockData == NULL) {
+					if (ByteData != Image->Data)
+						ifree(ByteData);
 					return 0;
+				}
 
 				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
 					if (ByteData != Image->Data)
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index a8422ac..cc71d8c 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -224,14 +224,11 @@ ILboolean iLoadVtfInternal(void)
 	ILuint		SizeOfData, Channels, k;
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
 	VTFHEAD		Head;
-	ILuint		CurName;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurName = ilGetCurName();
-	
 	if (!iGetVtfHead(&Head))
 		return IL_FALSE;
 	if (!iCheckVtf(&Head)) {
@@ -363,7 +360,8 @@ ILboolean iLoadVtfInternal(void)
 	// The origin should be in the upper left.
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	// Create any mipmaps.
-	VtfInitFacesMipmaps(iCurImage, NumFaces, &Head);
+	if (!VtfInitFacesMipmaps(iCurImage, NumFaces, &Head))
+		return IL_FALSE;
 
 	// Create our animation chain
 	BaseImage = Image = iCurImage;  // Top-level image
@@ -376,7 +374,8 @@ ILboolean iLoadVtfInternal(void)
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 		// Create our faces and mipmaps for each frame.
-		VtfInitFacesMipmaps(Image, NumFaces, &Head);
+		if (!VtfInitFacesMipmaps(Image, NumFaces, &Head))
+			return IL_FALSE;
 	}
 
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
@@ -386,7 +385,7 @@ ILboolean iLoadVtfInternal(void)
 			// @TODO: Cubemap faces are always in the same order?
 			for (Face = 0; Face < NumFaces; Face++) {
 				//@TODO: Would probably be quicker to do the linked list traversal manually here.
-				ilBindImage(CurName);
+				iCurImage = BaseImage;
 				ilActiveImage(Frame);
 				ilActiveFace(Face);
 				ilActiveMipmap(Mipmap);
@@ -398,55 +397,58 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_DXT1:
 					case IMAGE_FORMAT_DXT1_ONEBITALPHA:
 						// The block size is 8.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth / 2, 8);
+						SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * 8;
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
-						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+						if (CompData == NULL || iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT1(Image, CompData);
 						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT5;
+							Image->DxtcFormat = IL_DXT1;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT1(Image, CompData);
 						break;
 
 					// DXT3 compression
 					case IMAGE_FORMAT_DXT3:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
+						SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * 16;
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
-						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+						if (CompData == NULL || iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT3(Image, CompData);
 						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT3;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT3(Image, CompData);
 						break;
 
 					// DXT5 compression
 					case IMAGE_FORMAT_DXT5:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
+						SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth * 16;
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
-						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+						if (CompData == NULL || iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT5(Image, CompData);
 						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT5;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT5(Image, CompData);
 						break;
 
 					// Uncompressed BGR(A) data (24-bit and 32-bit)
@@ -478,8 +480,10 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX8888:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 3;
 						Temp = CompData = (ILubyte*)ialloc(SizeOfData / 3 * 4);  // Not compressed data
-						if (CompData == NULL)
-							return IL_FALSE;
+						if (CompData == NULL) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						if (iread(CompData, 1, SizeOfData / 3 * 4) != SizeOfData / 3 * 4) {
 							bVtf = IL_FALSE;
 							break;
@@ -497,8 +501,10 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_RGBA16161616F:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * Image->Bpp * 2;
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
-						if (CompData == NULL)
-							return IL_FALSE;
+						if (CompData == NULL) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -535,8 +541,10 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGR565:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
-						if (CompData == NULL)
-							return IL_FALSE;
+						if (CompData == NULL) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -556,8 +564,10 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRA5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
-						if (CompData == NULL)
-							return IL_FALSE;
+						if (CompData == NULL) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -576,7 +586,7 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
-						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+						if (CompData == NULL || iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
 						}
@@ -592,8 +602,10 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRA4444:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 4;
 						Temp = CompData = (ILubyte*)ialloc(SizeOfData / 2);  // Not compressed data
-						if (CompData == NULL)
-							return IL_FALSE;
+						if (CompData == NULL) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						if (iread(CompData, 1, SizeOfData / 2) != SizeOfData / 2) {
 							bVtf = IL_FALSE;
 							break;
@@ -611,13 +623,15 @@ ILboolean iLoadVtfInternal(void)
 
 				ifree(CompData);
 				CompData = NULL;
-				if (bVtf == IL_FALSE)  //@TODO: Do we need to do any cleanup here?
+				if (bVtf == IL_FALSE) {
+					iCurImage = BaseImage;
 					return IL_FALSE;
+				}
 			}
 		}
 	}
 
-	ilBindImage(CurName);  // Set to parent image first.
+	iCurImage = BaseImage;  // Set to parent image first.
 	return ilFixImage();
 }
 
@@ -652,7 +666,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 	ILuint	Face;
 
 	// Initialize mipmaps under the base image.
-	VtfInitMipmaps(BaseImage, Header);
+	if (!VtfInitMipmaps(BaseImage, Header))
+		return IL_FALSE;
 	Image = BaseImage;
 
 	// We have an environment map.
@@ -672,7 +687,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 		Image->CubeFlags = GetFaceFlag(Face);
 
 		// Now we can initialize the mipmaps under each face.
-		VtfInitMipmaps(Image, Header);
+		if (!VtfInitMipmaps(Image, Header))
+			return IL_FALSE;
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From 46f3b38e1d4e783707976280eb9c6f5ccaecd09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 13/72] fix: ILU filters check conversions and stay inside
 small images

---
 DevIL/src-ILU/src/ilu_filter.cpp | 286 +++++++++++++++----------------
 1 file changed, 136 insertions(+), 150 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..b7054f6 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -11,7 +11,7 @@
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
+	ILuint		x, y, z, i, j, k, c, Total, Tested;
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr;
 	ILdouble	*DblPtr, DblTotal, DblTested;
@@ -25,10 +25,11 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 
 	if (PixSize == 0)
 		PixSize = 1;
-	r = 0;
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
 
 	RegionMask = iScanFill();
 
@@ -71,9 +72,10 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 		case 2:
 			ShortPtr = (ILushort*)iluCurImage->Data;
 			iluCurImage->Bps /= 2;
+			iluCurImage->SizeOfPlane /= 2;
 			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
 				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
+					for (x = 0; x < iluCurImage->Width; x += PixSize) {
 						for (c = 0; c < iluCurImage->Bpp; c++) {
 							Total = 0;  Tested = 0;
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
@@ -89,7 +91,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
 								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
 									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
+										if (!RegionMask || RegionMask[(y+j) * iluCurImage->Width + (x+i)]) {
 											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
 												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
 												Total;
@@ -102,13 +104,15 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 				}
 			}
 			iluCurImage->Bps *= 2;
+			iluCurImage->SizeOfPlane *= 2;
 			break;
 		case 4:
 			IntPtr = (ILuint*)iluCurImage->Data;
 			iluCurImage->Bps /= 4;
+			iluCurImage->SizeOfPlane /= 4;
 			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
 				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
+					for (x = 0; x < iluCurImage->Width; x += PixSize) {
 						for (c = 0; c < iluCurImage->Bpp; c++) {
 							Total = 0;  Tested = 0;
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
@@ -124,7 +128,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
 								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
 									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
+										if (!RegionMask || RegionMask[(y+j) * iluCurImage->Width + (x+i)]) {
 											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
 												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
 												Total;
@@ -137,13 +141,15 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 				}
 			}
 			iluCurImage->Bps *= 4;
+			iluCurImage->SizeOfPlane *= 4;
 			break;
 		case 8:
 			DblPtr = (ILdouble*)iluCurImage->Data;
 			iluCurImage->Bps /= 8;
+			iluCurImage->SizeOfPlane /= 8;
 			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
 				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
+					for (x = 0; x < iluCurImage->Width; x += PixSize) {
 						for (c = 0; c < iluCurImage->Bpp; c++) {
 							DblTotal = 0.0;  DblTested = 0.0;
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
@@ -159,7 +165,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
 								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
 									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
+										if (!RegionMask || RegionMask[(y+j) * iluCurImage->Width + (x+i)]) {
 											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
 												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
 												DblTotal;
@@ -172,6 +178,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 				}
 			}
 			iluCurImage->Bps *= 8;
+			iluCurImage->SizeOfPlane *= 8;
 			break;
 	}
 
@@ -187,12 +194,12 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 // Needs some SERIOUS optimization.
 ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 {
-    ILint		x, y, c, LastX, LastY, Offsets[9];
-	ILuint		i, Temp, z;
+    ILint		x, y, c, LastX, LastY, Offsets[9], Row, Col, Col2;
+	ILuint		i, Temp, z, Last;
 	ILubyte		*Data, *ImgData, *NewData, *RegionMask;
 	ILdouble	Num;
 	
-	if (Image == NULL) {
+	if (Image == NULL || Image->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return NULL;
 	}
@@ -208,6 +215,12 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 	ImgData = Image->Data;
 	NewData = Data;
 
+	// Distances to the neighbours of the edge pixels, which small images do not all have.
+	Row  = Image->Height > 1 ? (ILint)Image->Bps : 0;
+	Col  = Image->Width  > 1 ? (ILint)Image->Bpp : 0;
+	Col2 = Image->Width  > 2 ? 2 * (ILint)Image->Bpp : Col;
+	Last = Image->SizeOfPlane - Image->Bpp;  // Offset of the last pixel
+
 	for (z = 0; z < Image->Depth; z++) {
 		LastX = Image->Width  - 1;
 		LastY = Image->Height - 1;
@@ -288,7 +301,9 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		for (x = 1; x < (ILint)Image->Width-1; x++) {
 			if (RegionMask) {
 				if (!RegionMask[x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
+					for (c = 0; c < Image->Bpp; c++) {
+						Data[x * Image->Bpp + c] = Image->Data[x * Image->Bpp + c];
+					}
 					continue;
 				}
 			}
@@ -299,9 +314,9 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 						Image->Data[(x-1) * Image->Bpp + c] * matrix[3]+
 						Image->Data[x * Image->Bpp + c] * matrix[4]+
 						Image->Data[(x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[6]+
-						Image->Data[(Image->Width + (x  )) * Image->Bpp + c] * matrix[7]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[8];
+						Image->Data[Row + (x-1) * Image->Bpp + c] * matrix[6]+
+						Image->Data[Row + x * Image->Bpp + c] * matrix[7]+
+						Image->Data[Row + (x-1) * Image->Bpp + c] * matrix[8];
 
 					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
 					if (Temp > 255)
@@ -316,14 +331,16 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		for (x = 1; x < (ILint)Image->Width-1; x++) {
 			if (RegionMask) {
 				if (!RegionMask[(Image->Height - 1) * Image->Width + x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
+					for (c = 0; c < Image->Bpp; c++) {
+						Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
+					}
 					continue;
 				}
 			}
 			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + (x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[y - Image->Bps + x * Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + (x+1) * Image->Bpp + c] * matrix[2]+
+				Num =   Image->Data[y - Row + (x-1) * Image->Bpp + c] * matrix[0] +
+						Image->Data[y - Row + x * Image->Bpp + c] * matrix[1]+
+						Image->Data[y - Row + (x+1) * Image->Bpp + c] * matrix[2]+
 						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[3]+
 						Image->Data[y + x * Image->Bpp + c] * matrix[4]+
 						Image->Data[y + (x+1) * Image->Bpp + c] * matrix[5]+
@@ -342,21 +359,23 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		// Left side
 		for (i = 1, y = Image->Bps; i < Image->Height-1; i++, y += Image->Bps) {
 			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp]) {
-					Data[y + c] = Image->Data[y + c];
+				if (!RegionMask[i * Image->Width]) {
+					for (c = 0; c < Image->Bpp; c++) {
+						Data[y + c] = Image->Data[y + c];
+					}
 					continue;
 				}
 			}
 			for (c = 0; c < Image->Bpp; c++) {
 				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
+						Image->Data[y - Image->Bps + Col + c] * matrix[1]+
+						Image->Data[y - Image->Bps + Col2 + c] * matrix[2]+
 						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
+						Image->Data[y + Col + c] * matrix[4]+
+						Image->Data[y + Col2 + c] * matrix[5]+
 						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
+						Image->Data[y + Image->Bps + Col + c] * matrix[7]+
+						Image->Data[y + Image->Bps + Col2 + c] * matrix[8];
 
 					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
 					if (Temp > 255)
@@ -369,7 +388,7 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		// Right side
 		for (i = 1, y = Image->Bps * 2 - Image->Bpp; i < Image->Height-1; i++, y += Image->Bps) {
 			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp + (Image->Width - 1)]) {
+				if (!RegionMask[i * Image->Width + (Image->Width - 1)]) {
 					for (c = 0; c < Image->Bpp; c++) {
 						Data[y + c] = Image->Data[y + c];
 					}
@@ -382,10 +401,10 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
 						Image->Data[y + c] * matrix[3]+
 						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
+						Image->Data[IL_MIN(y + 2 * Image->Bpp, Last) + c] * matrix[5]+
 						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
+						Image->Data[IL_MIN(y + Image->Bps + Image->Bpp, Last) + c] * matrix[7]+
+						Image->Data[IL_MIN(y + Image->Bps + 2 * Image->Bpp, Last) + c] * matrix[8];
 
 					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
 					if (Temp > 255)
@@ -410,6 +429,42 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 }
 
 
+// Filters only work on 8-bit channels: converts the current image, remembering what it was.
+static ILboolean iFilterBegin(ILboolean *Palette, ILboolean *Converted, ILenum *Type)
+{
+	ILimage *Image = ilGetCurImage();
+
+	if (Image->Data == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	if (Image->Format == IL_COLOUR_INDEX) {
+		*Palette = IL_TRUE;
+		return ilConvertImage(ilGetPalBaseType(Image->Pal.PalType), IL_UNSIGNED_BYTE);
+	}
+	if (Image->Type > IL_UNSIGNED_BYTE) {
+		*Converted = IL_TRUE;
+		*Type = Image->Type;
+		return ilConvertImage(Image->Format, IL_UNSIGNED_BYTE);
+	}
+
+	return IL_TRUE;
+}
+
+
+// Converts the current image back to what it was.
+static ILboolean iFilterEnd(ILboolean Palette, ILboolean Converted, ILenum Type)
+{
+	if (Palette)
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+	if (Converted)
+		return ilConvertImage(ilGetCurImage()->Format, Type);
+
+	return IL_TRUE;
+}
+
+
 ILboolean ILAPIENTRY iluEdgeDetectP()
 {
 	ILubyte		*HPass, *VPass;
@@ -423,15 +478,8 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 
 
 	HPass = Filter(iluCurImage, filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias);
@@ -460,12 +508,7 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 	ifree(HPass);
 	ifree(VPass);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 
@@ -482,15 +525,8 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 
 	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
 	VPass = Filter(iluCurImage, filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
@@ -518,12 +554,7 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 	ifree(HPass);
 	ifree(VPass);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 
@@ -540,15 +571,8 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 
 	for (i = 0; i < Iter; i++) {
 		Data = Filter(iluCurImage, filter_average, filter_average_scale, filter_average_bias);
@@ -558,12 +582,7 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 		iluCurImage->Data = Data;
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 
@@ -580,15 +599,8 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 
 	for (i = 0; i < Iter; i++) {
 		Data = Filter(iluCurImage, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias );
@@ -598,12 +610,7 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 		iluCurImage->Data = Data;
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 
@@ -619,15 +626,8 @@ ILboolean ILAPIENTRY iluEmboss()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 
 	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
 	if (!Data)
@@ -635,12 +635,7 @@ ILboolean ILAPIENTRY iluEmboss()
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 /*ILboolean ILAPIENTRY iluEmboss()
@@ -687,15 +682,8 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 
 	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
 	if (!Data)
@@ -703,12 +691,7 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
@@ -951,7 +934,7 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 
 	// Do we need to clamp here?
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		for (i = 0; i < iluCurImage->Pal.PalSize; i++) {
+		for (i = 0; iluCurImage->Pal.Palette != NULL && i < iluCurImage->Pal.PalSize; i++) {
 			iluCurImage->Pal.Palette[i] = (ILubyte)(Table[iluCurImage->Pal.Palette[i]] * 255);
 		}
 	}
@@ -991,12 +974,17 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 //
 
 
-void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
+ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 {
 	ILubyte	*Data = Image->Data;
 	ILuint	i;
 	ILubyte	r, g, b;
 
+	if (Data == NULL || Image->Bpc != 1) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	switch (Image->Format)
 	{
 		case IL_RGB:
@@ -1033,10 +1021,10 @@ void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 
 		default:
 			ilSetError(ILU_ILLEGAL_OPERATION);
-			return;
+			return IL_FALSE;
 	}
 
-	return;
+	return IL_TRUE;
 }
 
 
@@ -1098,9 +1086,7 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 		return IL_FALSE;
 	}
 
-	iApplyMatrix(iluCurImage, Mat);
-
-	return IL_TRUE;
+	return iApplyMatrix(iluCurImage, Mat);
 }
 
 
@@ -1117,6 +1103,10 @@ ILboolean ILAPIENTRY iluAlienify(void)
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (iluCurImage->Data == NULL || iluCurImage->Bpc != 1) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	Data = iluCurImage->Data;
 
 	iIdentity((ILfloat*)Mat);
@@ -1226,7 +1216,7 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 	ILuint	i;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -1256,7 +1246,7 @@ ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 	ILuint	i;
 	
 	CurImage = ilGetCurImage();
-	if (CurImage == NULL) {
+	if (CurImage == NULL || CurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -1265,18 +1255,25 @@ ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 	if (Blur == NULL) {
 		return IL_FALSE;
 	}
-	ilCopyImageAttr(Blur, CurImage);
+	if (!ilCopyImageAttr(Blur, CurImage)) {
+		ilCloseImage(Blur);
+		return IL_FALSE;
+	}
 
-	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
+	memcpy(Blur->Data, CurImage->Data, CurImage->SizeOfData);
 	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	if (!iluBlurGaussian(1)) {
+		ilSetCurImage(CurImage);
+		ilCloseImage(Blur);
+		return IL_FALSE;
+	}
 
 	for (i = 0; i < Iter; i++) {
 		iIntExtImg(Blur, CurImage, Factor);
 	}
 
-	ilCloseImage(Blur);
 	ilSetCurImage(CurImage);
+	ilCloseImage(Blur);
 
 	return IL_TRUE;
 }
@@ -1293,14 +1290,8 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 		return IL_FALSE;
 	}
 	
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Palette, &Converted, &Type))
+		return IL_FALSE;
 	
 	Data = Filter(iluCurImage, matrix, scale, bias);
 	if (!Data)
@@ -1308,12 +1299,7 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 	
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-	
-	return IL_TRUE;
+	return iFilterEnd(Palette, Converted, Type);
 }
 
 
-- 
2.43.0


From d8f6d732ff053b7c9c2856bbe1245113c657d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 14/72] fix: crop, canvas, wave, colour count and equalize
 handle all component sizes, palettes and failures

---
 DevIL/src-ILU/include/ilu_internal.h |   1 +
 DevIL/src-ILU/src/ilu_manip.cpp      | 226 +++++++++++----------------
 DevIL/src-ILU/src/ilu_utilities.cpp  |  20 +++
 3 files changed, 113 insertions(+), 134 deletions(-)

diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index d385aea..0185976 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -80,6 +80,7 @@ ILint ilRound(ILfloat Num);
 
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
 ILubyte	*iScanFill(void);
+ILboolean iTexImageKeepPal(ILuint Width, ILuint Height, ILuint Depth);
 
 
 #endif//INTERNAL_H
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..83d0ddc 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -5,19 +5,20 @@
 #include <limits.h>
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
+ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILuint	y, z, OldBps, OldPlane, PixSize;
 	ILubyte	*Data;
-	ILenum	Origin;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
+	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth ||
+		XOff > iluCurImage->Width - Width || YOff > iluCurImage->Height - Height || ZOff > iluCurImage->Depth - Depth) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -28,21 +29,18 @@ ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
 	}
 
 	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
+	OldPlane = iluCurImage->SizeOfPlane;
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
+	if (!iTexImageKeepPal(Width, Height, Depth)) {
+		ifree(Data);
 		return IL_FALSE;
 	}
-	iluCurImage->Origin = Origin;
 
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			memcpy(iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps,
+				Data + (z + ZOff) * OldPlane + (y + YOff) * OldBps + XOff * PixSize, Width * PixSize);
 		}
 	}
 
@@ -52,52 +50,15 @@ ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
 }
 
 
-ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height)
 {
-	ILuint	x, y, z, c, OldBps, OldPlane;
-	ILubyte	*Data;
-	ILenum	Origin;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
-
-	OldBps = iluCurImage->Bps;
-	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		ifree(Data);
-	}
-	iluCurImage->Origin = Origin;
-
-	for (z = 0; z < iluCurImage->Depth; z++) {
-		for (y = 0; y < iluCurImage->Height; y++) {
-			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
-				}
-			}
-		}
-	}
-
-	ifree(Data);
-
-	return IL_TRUE;
+	return iluCrop3D(XOff, YOff, 0, Width, Height, iluCurImage->Depth);
 }
 
 
@@ -113,11 +74,10 @@ ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width
 ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILubyte	*Data/*, Clear[4]*/;
-	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
+	ILuint	y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -185,7 +145,7 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		}
 	}
 
-	AddX *= iluCurImage->Bpp;
+	AddX *= iluCurImage->Bpp * iluCurImage->Bpc;
 
 	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
 	if (Data == NULL) {
@@ -197,11 +157,12 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 	OldBps   = iluCurImage->Bps;
 	OldH     = iluCurImage->Height;
 	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
+	if (!iTexImageKeepPal(Width, Height, Depth)) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	ilClearImage();
 	/*ilGetClear(Clear);
@@ -218,10 +179,8 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 
 	for (z = 0; z < OldD; z++) {
 		for (y = 0; y < OldH; y++) {
-			for (x = 0; x < OldBps; x++) {
-				iluCurImage->Data[z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + x + AddX] =
-					Data[z * OldPlane + y * OldBps + x];
-			}
+			memcpy(iluCurImage->Data + z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + AddX,
+				Data + z * OldPlane + y * OldBps, OldBps);
 		}
 	}
 
@@ -354,6 +313,10 @@ ILboolean ILAPIENTRY iluNegative()
 		i = iluCurImage->Pal.PalSize;
 	}
 	else {
+		if (iluCurImage->Data == NULL) {
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
 		Data = iluCurImage->Data;
 		i = iluCurImage->SizeOfData;
 	}
@@ -435,11 +398,11 @@ ILboolean ILAPIENTRY iluNegative()
 ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 {
 	ILint	Delta;
-	ILuint	y;
+	ILuint	y, PixSize;
 	ILubyte	*DataPtr, *TempBuff;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -449,23 +412,26 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 		return IL_FALSE;
 	}
 
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
 	for (y = 0; y < iluCurImage->Height; y++) {
 		Delta = (ILint)
 			(30 * sin((10 * Angle + y) * IL_DEGCONV) +
 			 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
 
+		Delta %= (ILint)iluCurImage->Width;  // Narrow images wrap around more than once.
+
 		DataPtr = iluCurImage->Data + y * iluCurImage->Bps;
 
 		if (Delta < 0) {
 			Delta = -Delta;
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * Delta);
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * Delta, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), TempBuff, iluCurImage->Bpp * Delta);
+			memcpy(TempBuff, DataPtr, PixSize * Delta);
+			memmove(DataPtr, DataPtr + PixSize * Delta, PixSize * (iluCurImage->Width - Delta));
+			memcpy(DataPtr + PixSize * (iluCurImage->Width - Delta), TempBuff, PixSize * Delta);
 		}
 		else if (Delta > 0) {
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), iluCurImage->Bpp * Delta);
-			memcpy(DataPtr + iluCurImage->Bpp * Delta, TempBuff, iluCurImage->Bpp * (iluCurImage->Width - Delta));
+			memcpy(TempBuff, DataPtr, PixSize * (iluCurImage->Width - Delta));
+			memmove(DataPtr, DataPtr + PixSize * (iluCurImage->Width - Delta), PixSize * Delta);
+			memcpy(DataPtr + PixSize * Delta, TempBuff, PixSize * (iluCurImage->Width - Delta));
 		}
 	}
 
@@ -487,8 +453,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
@@ -532,20 +498,17 @@ typedef struct BUCKET { ILubyte Colours[4];  struct BUCKET *Next; } BUCKET;
 
 ILuint ILAPIENTRY iluColoursUsed()
 {
-	ILuint i, c, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
+	ILuint i, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
 	BUCKET Buckets[8192], *Temp;
 	ILubyte ColTemp[4];
 	ILboolean Matched;
-	BUCKET *Heap[9];
-	ILuint HeapPos = 0, HeapPtr = 0, HeapSize;
+	BUCKET *Heap;
+	ILuint HeapPtr = 0;
 
 	imemclear(Buckets, sizeof(BUCKET) * 8192);
-	for (c = 0; c < 9; c++) {
-		Heap[c] = 0;
-	}
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return 0;
 	}
@@ -553,13 +516,10 @@ ILuint ILAPIENTRY iluColoursUsed()
 	Bpp = iluCurImage->Bpp;
 	SizeData = iluCurImage->SizeOfData;
 
-	// Create our miniature memory heap.
-	// I have determined that the average number of colours versus
-	//	the number of pixels is about a 1:8 ratio, so divide by 8.
-	HeapSize = IL_MAX(1, iluCurImage->SizeOfData / iluCurImage->Bpp / 8);
-	Heap[0] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-	if (Heap[0] == NULL)
-		return IL_FALSE;
+	// Create our miniature memory heap, with an entry for each pixel in case all of them differ.
+	Heap = (BUCKET*)ialloc(SizeData / Bpp * sizeof(BUCKET));
+	if (Heap == NULL)
+		return 0;
 
 	for (i = 0; i < SizeData; i += Bpp) {
 		*(ILuint*)ColTemp = 0;
@@ -569,8 +529,9 @@ ILuint ILAPIENTRY iluColoursUsed()
 		ColTemp[0] = iluCurImage->Data[i];
 		if (Bpp > 1) {
 			ColTemp[1] = iluCurImage->Data[i + 1];
-			ColTemp[2] = iluCurImage->Data[i + 2];
 		}
+		if (Bpp > 2)
+			ColTemp[2] = iluCurImage->Data[i + 2];
 		if (Bpp > 3)
 			ColTemp[3] = iluCurImage->Data[i + 3];
 
@@ -580,13 +541,7 @@ ILuint ILAPIENTRY iluColoursUsed()
 		if (Buckets[BucketPos].Next == NULL) {
 			NumCols++;
 			//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-			Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-			if (HeapPtr >= HeapSize) {
-				Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-				if (Heap[HeapPos] == NULL)
-					goto alloc_error;
-				HeapPtr = 0;
-			}
+			Buckets[BucketPos].Next = Heap + HeapPtr++;
 			*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
 			Buckets[BucketPos].Next->Next = NULL;
 		}
@@ -607,13 +562,7 @@ ILuint ILAPIENTRY iluColoursUsed()
 					NumCols++;
 					Temp = Buckets[BucketPos].Next;
 					//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-					Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-					if (HeapPtr >= HeapSize) {
-						Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-						if (Heap[HeapPos] == NULL)
-							goto alloc_error;
-						HeapPtr = 0;
-					}
+					Buckets[BucketPos].Next = Heap + HeapPtr++;
 					Buckets[BucketPos].Next->Next = Temp;
 					*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
 				}
@@ -622,20 +571,9 @@ ILuint ILAPIENTRY iluColoursUsed()
 	}
 
 	// Delete our mini heap.
-	for (i = 0; i < 9; i++) {
-		if (Heap[i] == NULL)
-			break;
-		ifree(Heap[i]);
-	}
+	ifree(Heap);
 
 	return NumCols;
-
-alloc_error:
-	for (i = 0; i < 9; i++) {
-		ifree(Heap[i]);
-	}
-
-	return 0;
 }
 
 
@@ -669,8 +607,15 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		Original->Type != iluCurImage->Type ||
 		Original->Width != iluCurImage->Width) {
 			ilBindImage(OrigName);
+			ilSetCurImage(iluCurImage);  // May be a sub-image of the bound image.
 			return IL_FALSE;
 	}
+	if (Original->Data == NULL || iluCurImage->Data == NULL) {
+		Same = (Original->Data == iluCurImage->Data);
+		ilBindImage(OrigName);
+		ilSetCurImage(iluCurImage);
+		return Same;
+	}
 
 	for (i = 0; i < iluCurImage->SizeOfData; i++) {
 		if (Original->Data[i] != iluCurImage->Data[i]) {
@@ -680,6 +625,7 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 	}
 
 	ilBindImage(OrigName);
+	ilSetCurImage(iluCurImage);
 	return Same;
 }
 
@@ -692,7 +638,7 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 	ILuint	i, NumPix;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return 0;
 	}
@@ -763,10 +709,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 	ILuint	j = 0; // index variable
 	ILuint	Sum=0;
 	ILuint	NumPixels, Bpp;
+	ILubyte	*LumData;
 	ILint	Intensity;
 	ILfloat	Scale;
 	ILint	IntensityNew;
-	ILimage	*LumImage;
 	ILuint	NewColour[4];
 	ILubyte		*BytePtr;
 	ILushort	*ShortPtr;
@@ -781,12 +727,16 @@ ILboolean ILAPIENTRY iluEqualize() {
 	}
 
 	// @TODO:  Change to work with other types!
-	if (iluCurImage->Bpc > 1) {
+	if (iluCurImage->Bpc > 1 || iluCurImage->Data == NULL) {
 		ilSetError(ILU_INTERNAL_ERROR);
 		return IL_FALSE;
 	}
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (iluCurImage->Pal.Palette == NULL || iluCurImage->Pal.PalSize == 0 || ilGetBppPal(iluCurImage->Pal.PalType) == 0) {
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
 		NumPixels = iluCurImage->Pal.PalSize / ilGetBppPal(iluCurImage->Pal.PalType);
 		Bpp = ilGetBppPal(iluCurImage->Pal.PalType);
 	} else {
@@ -798,11 +748,18 @@ ILboolean ILAPIENTRY iluEqualize() {
 	imemclear(Histogram, 256 * sizeof(ILuint));
 	imemclear(SumHistm,  256 * sizeof(ILuint));
 
-	LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
-	if (LumImage == NULL)
+	// The luminance of each pixel or of each palette entry, whichever will be changed.
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		LumData = (ILubyte*)ilConvertBuffer(NumPixels * Bpp, ilGetPalBaseType(iluCurImage->Pal.PalType), IL_LUMINANCE,
+			IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, NULL, iluCurImage->Pal.Palette);
+	} else {
+		LumData = (ILubyte*)ilConvertBuffer(iluCurImage->SizeOfData, iluCurImage->Format, IL_LUMINANCE,
+			iluCurImage->Type, IL_UNSIGNED_BYTE, NULL, iluCurImage->Data);
+	}
+	if (LumData == NULL)
 		return IL_FALSE;
 	for (i = 0; i < NumPixels; i++) {
-		Histogram[LumImage->Data[i]]++;
+		Histogram[LumData[i]]++;
 	}
 
 	// Calculate normalized Sum of Histogram.
@@ -821,22 +778,22 @@ ILboolean ILAPIENTRY iluEqualize() {
 
 	// Transform image using new SumHistm as a LUT
 	for (i = 0; i < NumPixels; i++) {
-		Intensity = LumImage->Data[i];
+		Intensity = LumData[i];
 
 		// Look up the normalized intensity
 		IntensityNew = (ILint)SumHistm[Intensity];
 
 		// Find out by how much the intensity has been Scaled
-		Scale = (ILfloat)IntensityNew / (ILfloat)Intensity;
+		Scale = Intensity ? (ILfloat)IntensityNew / (ILfloat)Intensity : 0.0f;
 
 		switch (iluCurImage->Bpc)
 		{
 			case 1:
 				// Calculate new pixel(s)
-				NewColour[0] = (ILuint)(BytePtr[i * iluCurImage->Bpp] * Scale);
+				NewColour[0] = (ILuint)(BytePtr[i * Bpp] * Scale);
 				if (Bpp >= 3) {
-					NewColour[1] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 1] * Scale);
-					NewColour[2] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 2] * Scale);
+					NewColour[1] = (ILuint)(BytePtr[i * Bpp + 1] * Scale);
+					NewColour[2] = (ILuint)(BytePtr[i * Bpp + 2] * Scale);
 				}
 
 				// Clamp values
@@ -850,10 +807,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 				}
 
 				// Store pixel(s)
-				BytePtr[i * iluCurImage->Bpp] = (ILubyte)NewColour[0];
+				BytePtr[i * Bpp] = (ILubyte)NewColour[0];
 				if (Bpp >= 3) {
-					BytePtr[i * iluCurImage->Bpp + 1]	= (ILubyte)NewColour[1];
-					BytePtr[i * iluCurImage->Bpp + 2]	= (ILubyte)NewColour[2];
+					BytePtr[i * Bpp + 1]	= (ILubyte)NewColour[1];
+					BytePtr[i * Bpp + 2]	= (ILubyte)NewColour[2];
 				}
 				break;
 
@@ -899,7 +856,7 @@ ILboolean ILAPIENTRY iluEqualize() {
 		}
 	}
 
-	ilCloseImage(LumImage);
+	ifree(LumData);
 
 	return IL_TRUE;
 }
@@ -1006,6 +963,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_utilities.cpp b/DevIL/src-ILU/src/ilu_utilities.cpp
index 1e26560..fa4c888 100644
--- a/DevIL/src-ILU/src/ilu_utilities.cpp
+++ b/DevIL/src-ILU/src/ilu_utilities.cpp
@@ -30,6 +30,26 @@ ILuint ILAPIENTRY iluGenImage()
 }
 
 
+// Gives the current image new dimensions, keeping its format, type, origin and palette.
+//  The new pixels are undefined.  A failure leaves the image alone.
+ILboolean iTexImageKeepPal(ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILimage	*Image = ilGetCurImage();
+	ILpal	Pal = Image->Pal;
+	ILenum	Origin = Image->Origin;
+
+	Image->Pal.Palette = NULL;
+	if (!ilTexImage(Width, Height, Depth, Image->Bpp, Image->Format, Image->Type, NULL)) {
+		Image->Pal = Pal;
+		return IL_FALSE;
+	}
+	Image->Pal = Pal;
+	Image->Origin = Origin;
+
+	return IL_TRUE;
+}
+
+
 //! Retrieves information about the current bound image.
 void ILAPIENTRY iluGetImageInfo(ILinfo *Info)
 {
-- 
2.43.0


From 298189309e7468fc2bbf82a3a9a19733d36f1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 15/72] fix: rotate, noise and mipmaps stay inside the image
 and report failures

---
 DevIL/src-ILU/src/ilu_mipmap.cpp |  4 +--
 DevIL/src-ILU/src/ilu_noise.cpp  | 10 +++---
 DevIL/src-ILU/src/ilu_rotate.cpp | 58 +++++++++++++++++---------------
 3 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_mipmap.cpp b/DevIL/src-ILU/src/ilu_mipmap.cpp
index 94efbf5..42c6509 100644
--- a/DevIL/src-ILU/src/ilu_mipmap.cpp
+++ b/DevIL/src-ILU/src/ilu_mipmap.cpp
@@ -35,9 +35,7 @@ ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Dep
 	if (Parent->Mipmaps == NULL)
 		return IL_FALSE;
 
-	iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
-
-	return IL_TRUE;
+	return iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
 }
 
 
diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 90375b2..217f2b0 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -28,7 +28,7 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -44,7 +44,7 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		case 1:
 			Factor = (ILubyte)(Tolerance * (UCHAR_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
@@ -65,7 +65,7 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		case 2:
 			Factor = (ILushort)(Tolerance * (USHRT_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			ShortPtr = (ILushort*)iluCurImage->Data;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
@@ -87,8 +87,8 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		case 4:
 			Factor = (ILuint)(Tolerance * (UINT_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
+				break;
+			Factor2 = Factor > UINT_MAX / 2 ? UINT_MAX : Factor + Factor;
 			IntPtr = (ILuint*)iluCurImage->Data;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..21a4137 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -21,7 +21,7 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 	ILenum	PalType = 0;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -30,28 +30,32 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		PalType = iluCurImage->Pal.PalType;
 		CurImage = iluCurImage;
 		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (iluCurImage == NULL) {
+			iluCurImage = CurImage;
+			return IL_FALSE;
+		}
 	}
 
 	Temp = iluRotate_(iluCurImage, Angle);
+	if (PalType != 0) {
+		ilCloseImage(iluCurImage);
+		iluCurImage = CurImage;
+	}
 	if (Temp != NULL) {
 		if (PalType != 0) {
-			ilCloseImage(iluCurImage);
 			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			ilCloseImage(Temp);
+			if (Temp1 == NULL)
+				return IL_FALSE;
 			Temp = Temp1;
-			ilSetCurImage(CurImage);
 		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
+		if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
+			ilCloseImage(Temp);
+			return IL_FALSE;
+		}
 		if (PalType != 0) {
-			iluCurImage = ilGetCurImage();
-			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-			iluCurImage->Pal.PalType = Temp->Pal.PalType;
-			iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
-			if (iluCurImage->Pal.Palette == NULL) {
-				ilCloseImage(Temp);
-				return IL_FALSE;
-			}
-			memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
+			iluCurImage->Pal = Temp->Pal;
+			Temp->Pal.Palette = NULL;
 		}
 
 		iluCurImage->Origin = Temp->Origin;
@@ -124,25 +128,25 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		return NULL;
 	}
 
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
+	if (ilResizeImage(Rotated, IL_MAX(1, MaxX - MinX), IL_MAX(1, MaxY - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
 		ilCloseImage(Rotated);
-		return IL_FALSE;
+		return NULL;
 	}
 
 	ilClearImage_(Rotated);
 
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-	DblPtr = (ILdouble*)iluCurImage->Data;
+	ShortPtr = (ILushort*)Image->Data;
+	IntPtr = (ILuint*)Image->Data;
+	DblPtr = (ILdouble*)Image->Data;
 
 	//if (iluFilter == ILU_NEAREST) {
-	switch (iluCurImage->Bpc)
+	switch (Image->Bpc)
 	{
 		case 1:  // Byte-based (most images)
 			if (Angle == 90.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
+						RotOffset = x * Rotated->Bps + (Image->Height - 1 - y) * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
@@ -164,7 +168,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			else if (Angle == 270.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
+						RotOffset = (Image->Width - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
@@ -196,7 +200,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			if (Angle == 90.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
+						RotOffset = x * Rotated->Bps + (Image->Height - 1 - y) * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
@@ -218,7 +222,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			else if (Angle == 270.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
+						RotOffset = (Image->Width - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
@@ -252,7 +256,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			if (Angle == 90.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
+						RotOffset = x * Rotated->Bps + (Image->Height - 1 - y) * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
@@ -274,7 +278,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			else if (Angle == 270.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
+						RotOffset = (Image->Width - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
@@ -308,7 +312,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			if (Angle == 90.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
+						RotOffset = x * Rotated->Bps + (Image->Height - 1 - y) * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
@@ -330,7 +334,7 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 			else if (Angle == 270.0) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
 					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
+						RotOffset = (Image->Width - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
 						ImgOffset = y * Image->Bps + x * Image->Bpp;
 						for (c = 0; c < Rotated->Bpp; c++) {
 							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-- 
2.43.0


From 8a1fc6daba82c8a49a29246a580ddfa02298cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 16/72] fix: scaling stays inside the image and reports
 failures

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp |  18 ++-
 DevIL/src-ILU/src/ilu_scale.cpp      | 211 +++++++--------------------
 DevIL/src-ILU/src/ilu_scale2d.cpp    |  18 +--
 3 files changed, 71 insertions(+), 176 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..84d62be 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -308,7 +308,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	/* create intermediate column to hold horizontal dst column zoom */
 	tmp = (ILubyte*)ialloc(src->Height * sizeof(ILubyte));
 	if (tmp == NULL) {
-		return 0;
+		return -1;
 	}
 
 	xscale = (double) dst->Width / (double) src->Width;
@@ -333,9 +333,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (width * 2 + 1),
 					sizeof(CONTRIB));
 			if(contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - width);
@@ -355,9 +353,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
 					sizeof(CONTRIB));
 			if (contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - fwidth);
@@ -473,15 +469,21 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	}
 
 	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
+	if (Dest == NULL)
+		return IL_FALSE;
 	Dest->Origin = iluCurImage->Origin;
 	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
 
-	ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data);
+	if (!ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data)) {
+		ilCloseImage(Dest);
+		return IL_FALSE;
+	}
 	iluCurImage->Origin = Dest->Origin;
 	iluCurImage->Duration = Dest->Duration;
 	ilCloseImage(Dest);
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..5865b81 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -23,12 +23,15 @@ ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 	}
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
 					(ILuint)(iluCurImage->Depth * ZDim));
 }
 
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width);
 ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
 
@@ -83,27 +86,27 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 				{
 					Origin = iluCurImage->Origin;
 					Temp = iluScale_(iluCurImage, Width, iluCurImage->Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
+					if (Temp == NULL)
+						return IL_FALSE;
+					if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
 						ilCloseImage(Temp);
+						return IL_FALSE;
 					}
+					iluCurImage->Origin = Origin;
+					ilCloseImage(Temp);
 				}
 				else if (iluCurImage->Height > Height) // shrink height first
 				{
 					Origin = iluCurImage->Origin;
 					Temp = iluScale_(iluCurImage, iluCurImage->Width, Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
+					if (Temp == NULL)
+						return IL_FALSE;
+					if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
 						ilCloseImage(Temp);
+						return IL_FALSE;
 					}
+					iluCurImage->Origin = Origin;
+					ilCloseImage(Temp);
 				}
 
 				return (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
@@ -125,7 +128,7 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 		if (UsePal) {
 			if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
 				return IL_FALSE;
-			ilConvertPal(PalType);
+			return ilConvertPal(PalType);
 		}
 		return IL_TRUE;
 	}
@@ -134,17 +137,37 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 }
 
 
+// Takes the nearest pixel, whatever the type of its components.
+static void iScaleNearest(ILimage *Image, ILimage *Scaled)
+{
+	ILuint x, y, z, PixSize = Image->Bpp * Image->Bpc;
+
+	for (z = 0; z < Scaled->Depth; z++) {
+		for (y = 0; y < Scaled->Height; y++) {
+			for (x = 0; x < Scaled->Width; x++) {
+				memcpy(Scaled->Data + z * Scaled->SizeOfPlane + y * Scaled->Bps + x * PixSize,
+					Image->Data + (ILuint)((ILuint64)z * Image->Depth / Scaled->Depth) * Image->SizeOfPlane +
+					(ILuint)((ILuint64)y * Image->Height / Scaled->Height) * Image->Bps +
+					(ILuint)((ILuint64)x * Image->Width / Scaled->Width) * PixSize, PixSize);
+			}
+		}
+	}
+}
+
+
 ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILimage	*Scaled, *CurImage, *ToScale;
-	ILenum	Format, PalType;
+	ILimage	*Scaled, *ToScale;
 
-	CurImage = ilGetCurImage();
-	Format = Image->Format;
-	if (Format == IL_COLOUR_INDEX) {
-		ilSetCurImage(Image);
-		PalType = Image->Pal.PalType;
-		ToScale = iConvertImage(iluCurImage, ilGetPalBaseType(Image->Pal.PalType), iluCurImage->Type);
+	if (Image == NULL || Image->Data == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
+	if (Image->Format == IL_COLOUR_INDEX) {
+		ToScale = iConvertImage(Image, ilGetPalBaseType(Image->Pal.PalType), Image->Type);
+		if (ToScale == NULL)
+			return NULL;
 	}
 	else {
 		ToScale = Image;
@@ -152,156 +175,26 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 
 	// So we don't replicate this 3 times (one in each iluScalexD_() function.
 	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
-	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE) {
-		ilCloseImage(Scaled);
-		if (ToScale != Image)
-			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
-		return NULL;
-	}
-	if (ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc) == IL_FALSE) {
+	if (Scaled == NULL || ilCopyImageAttr(Scaled, ToScale) == IL_FALSE ||
+		ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc) == IL_FALSE) {
 		ilCloseImage(Scaled);
 		if (ToScale != Image)
 			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
 		return NULL;
 	}
-	
-	if (Height <= 1 && Image->Height <= 1) {
-		iluScale1D_(ToScale, Scaled, Width);
+
+	if (ToScale->Bpc == 8) {  // The other functions do not support doubles.
+		iScaleNearest(ToScale, Scaled);
 	}
-	if (Depth <= 1 && Image->Depth <= 1) {
+	else if (Depth <= 1 && Image->Depth <= 1) {
 		iluScale2D_(ToScale, Scaled, Width, Height);
 	}
 	else {
 		iluScale3D_(ToScale, Scaled, Width, Height, Depth);
 	}
 
-	if (Format == IL_COLOUR_INDEX) {
-		//ilSetCurImage(Scaled);
-		//ilConvertImage(IL_COLOUR_INDEX);
-		ilSetCurImage(CurImage);
+	if (ToScale != Image)
 		ilCloseImage(ToScale);
-	}
-
-	return Scaled;
-}
-
-
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width)
-{
-	ILuint		x1, x2;
-	ILuint		NewX1, NewX2, NewX3, x, c;
-	ILdouble	ScaleX, t1, t2, f;
-	ILushort	*ShortPtr, *SShortPtr;
-	ILuint		*IntPtr, *SIntPtr;
-
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILdouble)Width / Image->Width;
-
-	ShortPtr = (ILushort*)Image->Data;
-	SShortPtr = (ILushort*)Scaled->Data;
-	IntPtr = (ILuint*)Image->Data;
-	SIntPtr = (ILuint*)Scaled->Data;
-
-	if (iluFilter == ILU_NEAREST) {
-		switch (Image->Bpc)
-		{
-			case 1:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewX1 + c] = Image->Data[NewX2 + c];
-					}
-				}
-				break;
-			case 2:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewX1 + c] = ShortPtr[NewX2 + c];
-					}
-				}
-				break;
-			case 4:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewX1 + c] = IntPtr[NewX2 + c];
-					}
-				}
-				break;
-		}
-	}
-	else {  // IL_LINEAR or IL_BILINEAR
-		switch (Image->Bpc)
-		{
-			case 1:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewX1 + c];
-						x2 = Image->Data[NewX2 + c];
-
-						Scaled->Data[NewX3 + c] = (ILubyte)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 2:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewX1 + c];
-						x2 = ShortPtr[NewX2 + c];
-
-						SShortPtr[NewX3 + c] = (ILushort)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 4:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewX1 + c];
-						x2 = IntPtr[NewX2 + c];
-
-						SIntPtr[NewX3 + c] = (ILuint)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-		}
-	}
 
 	return Scaled;
 }
diff --git a/DevIL/src-ILU/src/ilu_scale2d.cpp b/DevIL/src-ILU/src/ilu_scale2d.cpp
index 98a5158..d2b546b 100644
--- a/DevIL/src-ILU/src/ilu_scale2d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale2d.cpp
@@ -130,7 +130,7 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 					ft = t2 * IL_PI;
 					f = (1.0 - cos(ft)) * .5;
 					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					NewX2 = IL_MIN((ILuint)(t4 / ScaleX) + 1, Image->Width - 1) * Image->Bpp;
 
 					Size = y * SclBps + x * Scaled->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -154,7 +154,7 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 					ft = t2 * IL_PI;
 					f = (1.0 - cos(ft)) * .5;
 					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					NewX2 = IL_MIN((ILuint)(t4 / ScaleX) + 1, Image->Width - 1) * Image->Bpp;
 
 					Size = y * SclBps + x * Scaled->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -178,7 +178,7 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 					ft = t2 * IL_PI;
 					f = (1.0 - cos(ft)) * .5;
 					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
+					NewX2 = IL_MIN((ILuint)(t4 / ScaleX) + 1, Image->Width - 1) * Image->Bpp;
 
 					Size = y * SclBps + x * Scaled->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -270,7 +270,7 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 					t3 = (1.0 - t2);
 					t4 = t1 * NewX;
 					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
+					NewX2 = IL_MIN((ILuint)(t4 + 1), Image->Width - 1) * Image->Bpp;
 
 					for (c = 0; c < Scaled->Bpp; c++) {
 						Table[0][c] = t3 * ShortPtr[NewY1 + NewX1 + c] +
@@ -300,7 +300,7 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 				ft = (t4 - (ILuint)(t4)) * IL_PI;
 				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
 				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
+				NewX2 = IL_MIN((ILuint)(t1 * NewX + 1), Image->Width - 1) * Image->Bpp;
 
 				Size = Height * SclBps + x * Image->Bpp;
 				for (c = 0; c < Scaled->Bpp; c++) {
@@ -326,7 +326,7 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 						t3 = (1.0 - t2);
 						t4 = t1 * NewX;
 						NewX1 = (ILuint)(t4) * Image->Bpp;
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
+						NewX2 = IL_MIN((ILuint)(t4 + 1), Image->Width - 1) * Image->Bpp;
 
 						for (c = 0; c < Scaled->Bpp; c++) {
 							Table[0][c] = t3 * IntPtr[NewY1 + NewX1 + c] +
@@ -356,7 +356,7 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 					ft = (t4 - (ILuint)(t4)) * IL_PI;
 					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
 					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
+					NewX2 = IL_MIN((ILuint)(t1 * NewX + 1), Image->Width - 1) * Image->Bpp;
 
 					Size = Height * SclBps + x * Image->Bpp;
 					for (c = 0; c < Scaled->Bpp; c++) {
@@ -394,7 +394,7 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 
 						NewX1 = (ILuint)(t4) * Image->Bpp;
 
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
+						NewX2 = IL_MIN((ILuint)(t4 + 1), Image->Width - 1) * Image->Bpp;
 
 
 
@@ -454,7 +454,7 @@ ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILui
 
 					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
 
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
+					NewX2 = IL_MIN((ILuint)(t1 * NewX + 1), Image->Width - 1) * Image->Bpp;
 
 
 
-- 
2.43.0


From c4d069b21ca2754de20543f945e19c3268f18d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 17/72] fix: compressing and decompressing DXT data survives
 failed allocations, stays in bounds and leaves the image alone on failure

---
 DevIL/src-IL/src/il_dds-save.cpp | 40 +++++++++------
 DevIL/src-IL/src/il_dds.cpp      | 88 +++++++++++++++++++-------------
 DevIL/src-IL/src/il_devil.cpp    |  4 ++
 3 files changed, 81 insertions(+), 51 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 468b676..886b8dd 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -470,7 +470,7 @@ ILushort *CompressTo565(ILimage *Image)
 			}
 			break;
 
-		case IL_ALPHA:
+		default:
 			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
 			break;
 	}
@@ -535,11 +535,9 @@ ILubyte *CompressTo88(ILimage *Image)
 			}
 			break;
 
-		case IL_LUMINANCE:
-		case IL_LUMINANCE_ALPHA:
-			for (i = 0, j = 0; i < TempImage->SizeOfData; i++, j += 2) {
-				Data[j  ] = Data[j+1] = 0; //??? Luminance is no normal map format...
-			}
+		default:
+			// Luminance and alpha are no normal map formats.
+			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
 			break;
 	}
 
@@ -629,6 +627,11 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 				Data[j] |=  TempImage->Data[i] >> 3;
 			}
 			break;
+
+		default:
+			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+			memset(Alpha, 0, iCurImage->Width * iCurImage->Height * iCurImage->Depth);
+			break;
 	}
 
 	if (TempImage != Image)
@@ -769,7 +772,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					ifree(ByteData);
 				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return DXTCSize;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_SQUISH
@@ -1293,6 +1296,8 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 #endif//IL_USE_DXTC_SQUISH
 
 	TempImage = (ILimage*)ialloc(sizeof(ILimage));
+	if (TempImage == NULL)
+		return NULL;
 	memset(TempImage, 0, sizeof(ILimage));
 	TempImage->Width = Width;
 	TempImage->Height = Height;
@@ -1301,23 +1306,26 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 	TempImage->Format = IL_BGRA;
 	TempImage->Bpc = 1;  // Unsigned bytes only
 	TempImage->Type = IL_UNSIGNED_BYTE;
+	TempImage->Bps = Width * TempImage->Bpp * TempImage->Bpc;
 	TempImage->SizeOfPlane = TempImage->Bps * Height;
 	TempImage->SizeOfData  = TempImage->SizeOfPlane * Depth;
 	TempImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	TempImage->Data = Data;
 
+	iCurImage = TempImage;
+	Buffer = NULL;
 	BuffSize = ilGetDXTCData(NULL, 0, DXTCFormat);
-	if (BuffSize == 0)
-		return NULL;
-	Buffer = (ILubyte*)ialloc(BuffSize);
-	if (Buffer == NULL)
-		return NULL;
+	if (BuffSize != 0)
+		Buffer = (ILubyte*)ialloc(BuffSize);
 
-	if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
-		ifree(Buffer);
-		return NULL;
+	if (Buffer != NULL) {
+		if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
+			ifree(Buffer);
+			Buffer = NULL;
+		}
+		else
+			*DXTCSize = BuffSize;
 	}
-	*DXTCSize = BuffSize;
 
 	// Restore backup of iCurImage.
 	iCurImage = CurImage;
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 955cc44..5c49b9e 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2241,7 +2241,8 @@ void ilFreeImageDxtcData()
  */
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
-	ILuint CompFormat;
+	ILuint CompFormat, NewSize;
+	ILubyte *NewData;
 
 	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2254,6 +2255,17 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 		return IL_FALSE;
 	}
 
+	// Get the memory before anything changes, so a failure leaves the image as it was.
+	NewSize = iCurImage->Width * 4 * iCurImage->Height * iCurImage->Depth;
+	if (iCurImage->Data == NULL || iCurImage->SizeOfData != NewSize) {
+		NewData = (ILubyte*)ialloc(NewSize);
+		if (NewData == NULL)
+			return IL_FALSE;
+		ifree(iCurImage->Data);
+		iCurImage->Data = NewData;
+		iCurImage->SizeOfData = NewSize;
+	}
+
 	//@TODO: is this right for all dxt formats? works for
 	//  DXT1, 3, 5
 	iCurImage->Bpp = 4;
@@ -2263,17 +2275,6 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 	iCurImage->Format = IL_RGBA;
 	iCurImage->Type = IL_UNSIGNED_BYTE;
 
-	if (iCurImage->SizeOfData != iCurImage->SizeOfPlane*iCurImage->Depth) {
-		iCurImage->SizeOfData = iCurImage->Depth*iCurImage->SizeOfPlane;
-		if (iCurImage->Data != NULL)
-			ifree(iCurImage->Data);
-		iCurImage->Data = NULL;
-	}
-
-	if (iCurImage->Data == NULL) {
-		iCurImage->Data = (ILubyte*)ialloc(iCurImage->SizeOfData);
-	}
-
 	Image = iCurImage;
 	Width = iCurImage->Width;
 	Height = iCurImage->Height;
@@ -2324,9 +2325,13 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 
 ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 {
-	ILuint Size;
-	ILubyte* Data;
-	ilFreeSurfaceDxtcData();
+	ILuint Size, OldSize;
+	ILubyte *Data, *OldData;
+
+	if (iCurImage == NULL || iCurImage->Data == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	Size = ilGetDXTCData(NULL, 0, Format);
 	if (Size == 0) {
@@ -2338,7 +2343,19 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 	if (Data == NULL)
 		return IL_FALSE;
             
-	ilGetDXTCData((void*)Data, Size, Format);
+	// Compress the pixels, not what was compressed earlier.
+	OldData = iCurImage->DxtcData;
+	OldSize = iCurImage->DxtcSize;
+	iCurImage->DxtcData = NULL;
+	iCurImage->DxtcSize = 0;
+	Size = ilGetDXTCData((void*)Data, Size, Format);
+	iCurImage->DxtcData = OldData;
+	iCurImage->DxtcSize = OldSize;
+	if (Size == 0) {
+		ifree(Data);
+		return IL_FALSE;
+	}
+	ilFreeSurfaceDxtcData();
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2384,7 +2401,7 @@ ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtF
 	ILimage* Image = iCurImage;
 
 	ILint xBlocks, yBlocks, BlockSize, LineSize, DataSize;
-
+	ILubyte* NewData;
 
 	//The next few lines are copied from ilTexImage() and ilInitImage() -
 	//should be factored in more reusable functions...
@@ -2393,6 +2410,23 @@ ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtF
 		return IL_FALSE;
 	}
 
+    // Allocate DXT data buffer
+	xBlocks = (w + 3)/4;
+	yBlocks = (h + 3)/4;
+	if (DxtFormat == IL_DXT1)
+		BlockSize = 8;
+	else
+		BlockSize = 16;
+
+	LineSize = xBlocks * BlockSize;
+
+	DataSize = yBlocks * LineSize * d;
+
+	NewData = (ILubyte*)ialloc(DataSize);
+	if (NewData == NULL) {
+		return IL_FALSE;
+	}
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
@@ -2423,25 +2457,9 @@ ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtF
 	Image->Origin	   = IL_ORIGIN_LOWER_LEFT;
 	Image->Pal.PalType = IL_PAL_NONE;
 
-    // Allocate DXT data buffer
-	xBlocks = (w + 3)/4;
-	yBlocks = (h + 3)/4;
-	if (DxtFormat == IL_DXT1)
-		BlockSize = 8;
-	else
-		BlockSize = 16;
-
-	LineSize = xBlocks * BlockSize;
-
-	DataSize = yBlocks * LineSize * d;
-
 	Image->DxtcFormat  = DxtFormat;
-    Image->DxtcSize = DataSize;
-	Image->DxtcData    = (ILubyte*)ialloc(DataSize);
-
-	if (Image->DxtcData == NULL) {
-		return IL_FALSE;
-	}
+	Image->DxtcSize = DataSize;
+	Image->DxtcData    = NewData;
 
 	if (data != NULL)
 		memcpy(Image->DxtcData, data, DataSize);
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index f6b9ef3..4e8adcb 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -298,6 +298,10 @@ ILAPI ILboolean ILAPIENTRY ilTexSubImage_(ILimage *Image, void *Data)
 		return IL_FALSE;
 	}
 	if (!Image->Data) {
+		if (Image->SizeOfData == 0) {  // Only has compressed data
+			ilSetError(IL_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
 		Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
 		if (Image->Data == NULL)
 			return IL_FALSE;
-- 
2.43.0


From e5b70be490b980c408d0197a6a1ea640938d1c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 18/72] fix: luminance-alpha to alpha conversion reads the
 alpha it has

---
 DevIL/src-IL/src/il_convbuff.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index d0ef2d8..1a9bc35 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1753,30 +1753,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
-- 
2.43.0


From 0cbc1cd53181ca298a2c6381aca7cb0b44b2590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 19/72] fix: DICOM reading stops at the end of the data

---
 DevIL/src-IL/src/il_dicom.cpp | 57 +++++++++++++++--------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/DevIL/src-IL/src/il_dicom.cpp b/DevIL/src-IL/src/il_dicom.cpp
index c8074a6..5aea7dc 100644
--- a/DevIL/src-IL/src/il_dicom.cpp
+++ b/DevIL/src-IL/src/il_dicom.cpp
@@ -42,10 +42,9 @@ ILboolean	iGetDicomHead(DICOMHEAD *Header);
 ILboolean	SkipElement(DICOMHEAD *Header, ILushort GroupNum, ILushort ElementNum);
 ILboolean	GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number);
 ILboolean	GetUID(ILubyte *UID);
-ILuint		GetGroupNum(DICOMHEAD *Header);
+ILboolean	GetGroupNum(DICOMHEAD *Header, ILushort *Number);
 ILuint		GetShort(DICOMHEAD *Header, ILushort GroupNum);
 ILuint		GetInt(DICOMHEAD *Header, ILushort GroupNum);
-ILfloat		GetFloat(DICOMHEAD *Header, ILushort GroupNum);
 
 //! Checks if the file specified in FileName is a valid DICOM file.
 ILboolean ilIsValidDicom(ILconst_string FileName)
@@ -105,7 +104,7 @@ ILboolean iIsValidDicom(void)
 	if (!iGetDicomHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckDicom(&Header);
 }
@@ -126,7 +125,8 @@ ILboolean iGetDicomHead(DICOMHEAD *Header)
 //@TODO: What about the case when we are reading an image with Big Endian data?
 
 	do {
-		GroupNum = GetGroupNum(Header);
+		if (!GetGroupNum(Header, &GroupNum))  // Ran out of data before the pixels.
+			return IL_FALSE;
 		ElementNum = GetShort(Header, GroupNum);;
 
 		switch (GroupNum)
@@ -292,15 +292,17 @@ ILboolean SkipElement(DICOMHEAD *Header, ILushort GroupNum, ILushort ElementNum)
 }
 
 
-ILuint GetGroupNum(DICOMHEAD *Header)
+ILboolean GetGroupNum(DICOMHEAD *Header, ILushort *Number)
 {
 	ILushort GroupNum;
 
-	iread(&GroupNum, 1, 2);
+	if (iread(&GroupNum, 1, 2) != 2)
+		return IL_FALSE;
 	// The 0x02 group is always little endian.
 	if (GroupNum == 0x02) {
 		UShort(&GroupNum);
-		return GroupNum;
+		*Number = GroupNum;
+		return IL_TRUE;
 	}
 	// Now we have to swizzle it if it is not 0x02.
 	if (Header->BigEndian)
@@ -308,13 +310,14 @@ ILuint GetGroupNum(DICOMHEAD *Header)
 	else
 		UShort(&GroupNum);
 
-	return GroupNum;
+	*Number = GroupNum;
+	return IL_TRUE;
 }
 
 
 ILuint GetShort(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILushort Num;
+	ILushort Num = 0;
 
 	iread(&Num, 1, 2);
 	// The 0x02 group is always little endian.
@@ -334,7 +337,7 @@ ILuint GetShort(DICOMHEAD *Header, ILushort GroupNum)
 
 ILuint GetInt(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILuint Num;
+	ILuint Num = 0;
 
 	iread(&Num, 1, 4);
 	// The 0x02 group is always little endian.
@@ -352,26 +355,6 @@ ILuint GetInt(DICOMHEAD *Header, ILushort GroupNum)
 }
 
 
-ILfloat GetFloat(DICOMHEAD *Header, ILushort GroupNum)
-{
-	ILfloat Num;
-
-	iread(&Num, 1, 4);
-	// The 0x02 group is always little endian.
-	if (GroupNum == 0x02) {
-		Float(&Num);
-		return Num;
-	}
-	// Now we have to swizzle it if it is not 0x02.
-	if (Header->BigEndian)
-		BigFloat(&Num);
-	else
-		Float(&Num);
-
-	return Num;
-}
-
-
 ILboolean GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number)
 {
 	ILubyte		VR1, VR2;
@@ -568,8 +551,13 @@ ILboolean iLoadDicomInternal(void)
 			break;
 
 		case IL_UNSIGNED_SHORT:
+			if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+				return IL_FALSE;
 			for (i = 0; i < iCurImage->SizeOfData; i += 2) {
-				*((ILushort*)(iCurImage->Data + i)) = GetShort(&Header, 0);//GetLittleUShort();
+				if (Header.BigEndian)
+					BigUShort((ILushort*)(iCurImage->Data + i));
+				else
+					UShort((ILushort*)(iCurImage->Data + i));
 			}
 
 			// Swizzle the data from ABGR to RGBA.
@@ -584,8 +572,13 @@ ILboolean iLoadDicomInternal(void)
 			break;
 
 		case IL_FLOAT:
+			if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+				return IL_FALSE;
 			for (i = 0; i < iCurImage->SizeOfData; i += 4) {
-				*((ILfloat*)(iCurImage->Data + i)) = GetFloat(&Header, 0);//GetLittleFloat();
+				if (Header.BigEndian)
+					BigFloat((ILfloat*)(iCurImage->Data + i));
+				else
+					Float((ILfloat*)(iCurImage->Data + i));
 			}
 
 			// Swizzle the data from ABGR to RGBA.
-- 
2.43.0


From bfb02158535d9074d850c569c04ae47e888e0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 20/72] fix: C header saving releases the setting string and
 names the type it wrote

---
 DevIL/src-IL/src/il_header.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 40e9d61..bef3560 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -18,12 +18,26 @@
 #define MAX_LINE_WIDTH 14
 
 //! Generates a C-style header file for the current image.
+static ILboolean iSaveCHeader(ILconst_string FileName, const char *Name);
+
 ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
+{
+	char		*Name;
+	ILboolean	bRet;
+
+	Name = iGetString(IL_CHEAD_HEADER_STRING);
+	bRet = iSaveCHeader(FileName, Name ? Name : InternalName);
+	ifree(Name);
+
+	return bRet;
+}
+
+
+static ILboolean iSaveCHeader(ILconst_string FileName, const char *Name)
 {
 	FILE		*HeadFile;
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
-	const char	*Name;
 	ILboolean	Failed;
 
 	if (iCurImage == NULL) {
@@ -31,10 +45,6 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		return IL_FALSE;
 	}
 
-	Name = iGetString(IL_CHEAD_HEADER_STRING);
-	if (Name == NULL)
-		Name = InternalName;
-
 	if (FileName == NULL || Name == NULL ||
 		ilStrLen(FileName) < 1 || ilCharStrLen(Name) < 1) {
 		ilSetError(IL_INVALID_VALUE);
@@ -86,7 +96,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	fprintf(HeadFile, "#define IMAGE_WIDTH   %d\n", iCurImage->Width);
 	fprintf(HeadFile, "#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
 	fprintf(HeadFile, "#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
-	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", iCurImage->Type);
+	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", TempImage->Type);
 	fprintf(HeadFile, "#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
     fprintf(HeadFile, "ILubyte %s[] = {\n", Name);
         
-- 
2.43.0


From 5cbd8f70962f190b4c949272b5e004bc2c849c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 21/72] fix: a palette, raw or PNG load that fails halfway
 leaves a consistent image and no leak

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_bmp.cpp        | 13 +++++++++----
 DevIL/src-IL/src/il_manip.cpp      |  2 +-
 DevIL/src-IL/src/il_pal.cpp        | 10 ++++++++++
 DevIL/src-IL/src/il_pcx.cpp        |  3 ++-
 DevIL/src-IL/src/il_png.cpp        |  8 +++++++-
 DevIL/src-IL/src/il_raw.cpp        | 26 ++++++++++++++------------
 DevIL/src-IL/src/il_rawdata.cpp    |  8 ++++----
 DevIL/src-IL/src/il_sun.cpp        |  2 ++
 DevIL/src-IL/src/il_targa.cpp      |  5 +++--
 DevIL/src-IL/src/il_utx.cpp        |  4 +++-
 11 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index e2c8560..a1f6b91 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -210,6 +210,7 @@ ILboolean	ilRemoveAlpha(void);
 ILboolean	ilSwapColours(void);
 // Palette functions
 ILboolean	iCopyPalette(ILpal *Dest, ILpal *Src);
+void		iClearPal(ILpal *Pal);
 // Miscellaneous functions
 char*		iGetString(ILenum StringName);  // Internal version of ilGetString
 
diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 7fce0f4..7103fed 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -301,6 +301,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			iCurImage->Pal.PalSize = 2 * 4;
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iClearPal(&iCurImage->Pal);
 				return IL_FALSE;
 			}
 			break;
@@ -318,6 +319,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 				iCurImage->Pal.PalSize = 16 * 4;
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iClearPal(&iCurImage->Pal);
 				return IL_FALSE;
 			}
 			break;
@@ -336,8 +338,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 	// A height of 0 is illegal
 	if (Header->biHeight == 0) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		if (iCurImage->Pal.Palette)
-			ifree(iCurImage->Pal.Palette);
+		iClearPal(&iCurImage->Pal);
 		return IL_FALSE;
 	}
 
@@ -570,8 +571,10 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 	if (iCurImage->Pal.PalSize == 0)
 		iCurImage->Pal.PalSize = 256 * 4;
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage->Pal.Palette == NULL) {
+		iClearPal(&iCurImage->Pal);
 		return IL_FALSE;
+	}
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
@@ -649,8 +652,10 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 	iCurImage->Pal.PalType = IL_PAL_BGR32;
 	iCurImage->Pal.PalSize = 16 * 4; //Header->biClrUsed * 4;  // 16 * 4 for most images
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage->Pal.Palette == NULL) {
+		iClearPal(&iCurImage->Pal);
 		return IL_FALSE;
+	}
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index dc44d0f..a3de4a9 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -300,7 +300,7 @@ ILboolean ILAPIENTRY iMirror() {
 	ILuint		*IntPtr, *TempInt;
 	ILdouble	*DblPtr, *TempDbl;
 
-	if (iCurImage == NULL) {
+	if (iCurImage == NULL || iCurImage->Data == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index 357b3fa..aa129ca 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -495,6 +495,16 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 }
 
 
+// Frees the palette and leaves none behind.
+void iClearPal(ILpal *Pal)
+{
+	ifree(Pal->Palette);
+	Pal->Palette = NULL;
+	Pal->PalSize = 0;
+	Pal->PalType = IL_PAL_NONE;
+}
+
+
 // Assumes that Dest has nothing in it.
 ILboolean iCopyPalette(ILpal *Dest, ILpal *Src)
 {
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 679a33b..363ee15 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -241,6 +241,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Pal.PalSize = 256 * 3;  // Need to find out for sure...
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iClearPal(&iCurImage->Pal);
 				return IL_FALSE;
 			}
 			break;
@@ -423,7 +424,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 		ScanLine = (ILubyte*)ialloc(Bps);
 		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
 			ifree(ScanLine);
-			ifree(iCurImage->Pal.Palette);
+			iClearPal(&iCurImage->Pal);
 			return IL_FALSE;
 		}
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5cdff18..59b8833 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -249,7 +249,7 @@ ILint readpng_init()
 
 ILboolean readpng_get_image(ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp volatile	row_pointers = NULL;  // Keeps its value across the longjmp from an error.
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -264,6 +264,7 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 	 * libpng function */
 
 	if (setjmp(png_jmpbuf(png_ptr))) {
+		ifree(row_pointers);
 		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 		return IL_FALSE;
 	}
@@ -367,6 +368,11 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 		iCurImage->Pal.PalSize = num_palette * chans;
 
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+		if (iCurImage->Pal.Palette == NULL) {
+			iClearPal(&iCurImage->Pal);
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			iCurImage->Pal.Palette[chans*j + 0] = palette[j].red;
diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 1b8ea25..2742502 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -85,16 +85,27 @@ ILboolean iLoadRawInternal()
 
 	Depth = GetLittleUInt();
 
-	Bpp = (ILubyte)igetc();
-
-	if (iread(&Bpc, 1, 1) != 1)
+	if (iread(&Bpp, 1, 1) != 1 || iread(&Bpc, 1, 1) != 1)
+		return IL_FALSE;
+	if (Bpp < 1 || Bpp > 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	if (!ilTexImage(Width, Height, Depth, Bpp, 0, ilGetTypeBpc(Bpc), NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
+	if (iCurImage->Bpp == 1)
+		iCurImage->Format = IL_LUMINANCE;
+	else if (iCurImage->Bpp == 2)
+		iCurImage->Format = IL_LUMINANCE_ALPHA;
+	else if (iCurImage->Bpp == 3)
+		iCurImage->Format = IL_RGB;
+	else  // 4
+		iCurImage->Format = IL_RGBA;
+
 	// Tries to read the correct amount of data
 	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) < iCurImage->SizeOfData)
 		return IL_FALSE;
@@ -106,15 +117,6 @@ ILboolean iLoadRawInternal()
 		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 2)
-		iCurImage->Format = IL_LUMINANCE_ALPHA;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index ebcd918..db570f0 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -79,10 +79,6 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	// Tries to read the correct amount of data
-	if (iread(iCurImage->Data, Width * Height * Depth * Bpp, 1) != 1)
-		return IL_FALSE;
-
 	if (iCurImage->Bpp == 1)
 		iCurImage->Format = IL_LUMINANCE;
 	else if (iCurImage->Bpp == 3)
@@ -90,6 +86,10 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 	else  // 4
 		iCurImage->Format = IL_RGBA;
 
+	// Tries to read the correct amount of data
+	if (iread(iCurImage->Data, Width * Height * Depth * Bpp, 1) != 1)
+		return IL_FALSE;
+
 	return ilFixImage();
 }
 
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..9f72f95 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -231,6 +231,8 @@ ILboolean iLoadSunInternal(void)
 				}
 			}
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
+			if (iCurImage->Pal.Palette == NULL)
+				return IL_FALSE;
 			if (Header.ColorMapLength == 0) {  // Create the color map
 				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
 				iCurImage->Pal.Palette[1] = 0x00;
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 128ed2b..63569c6 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -260,8 +260,7 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
-		ifree(iCurImage->Pal.Palette);
+	iClearPal(&iCurImage->Pal);
 	
 	iCurImage->Format = IL_COLOUR_INDEX;
 	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
@@ -280,12 +279,14 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 			break;
 		default:
 			// Should *never* reach here
+			iClearPal(&iCurImage->Pal);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
 	
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 	if (iCurImage->Pal.Palette == NULL) {
+		iClearPal(&iCurImage->Pal);
 		return IL_FALSE;
 	}
 	
diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 4bd71ba..5e14748 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -502,8 +502,10 @@ ILboolean iLoadUtxInternal(void)
 				case UTX_P8:
 					Image->Pal.PalSize = Palettes[PalEntry].Count * 4;
 					Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
-					if (Image->Pal.Palette == NULL)
+					if (Image->Pal.Palette == NULL) {
+						iClearPal(&Image->Pal);
 						return IL_FALSE;
+					}
 					memcpy(Image->Pal.Palette, Palettes[PalEntry].Pal, Image->Pal.PalSize);
 					Image->Pal.PalType = IL_PAL_RGBA32;
 
-- 
2.43.0


From f73d79008fd9d3963cedb285fa7214654fd0731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 22/72] fix: an error while saving PNG returns to the save
 instead of jumping nowhere

---
 DevIL/src-IL/src/il_png.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 59b8833..3111e36 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -495,8 +495,9 @@ ILboolean iSavePngInternal()
 	png_text	text[4];
 	ILenum		PngType;
 	ILuint		BitDepth, i, j;
-	ILubyte 	**RowPtr = NULL;
-	ILimage 	*Temp = NULL;
+	ILubyte 	** volatile RowPtr = NULL;  // These keep their values across the longjmp from an error.
+	ILimage 	* volatile Temp = NULL;
+	ILpal		* volatile TempPal = NULL;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -522,14 +523,15 @@ ILboolean iSavePngInternal()
 		goto error_label;
 	}
 
-	/*// Set error handling.  REQUIRED if you aren't supplying your own
-	//	error handling functions in the png_create_write_struct() call.
+	// Set error handling.  png_error_func jumps here, because it may not return.
 	if (setjmp(png_jmpbuf(png_ptr))) {
-		// If we get here, we had a problem reading the file
 		png_destroy_write_struct(&png_ptr, &info_ptr);
-		ilSetError(IL_LIB_PNG_ERROR);
+		ilClosePal(TempPal);
+		ifree(RowPtr);
+		if (Temp != iCurImage)
+			ilCloseImage(Temp);
 		return IL_FALSE;
-	}*/
+	}
 
 //	png_init_io(png_ptr, PngFile);
 	png_set_write_fn(png_ptr, NULL, png_write, flush_data);
@@ -602,7 +604,6 @@ ILboolean iSavePngInternal()
 
     // set the palette if there is one.  REQUIRED for indexed-color images.
 	if (iCurImage->Format == IL_COLOUR_INDEX) {
-	    ILpal		*TempPal = NULL;
         ILint       palType;
         ILint numCols;
 
@@ -616,6 +617,7 @@ ILboolean iSavePngInternal()
 			goto error_label;
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
         ilClosePal(TempPal);
+        TempPal = NULL;
 
         palType = ilGetInteger(IL_PALETTE_TYPE);
         if( palType==IL_PAL_RGBA32 || palType==IL_PAL_BGRA32 ) {
@@ -672,10 +674,7 @@ ILboolean iSavePngInternal()
 	text[3].compression = PNG_TEXT_COMPRESSION_NONE;
 	png_set_text(png_ptr, info_ptr, text, 3);
 
-	// Write the file header information.  REQUIRED.
-	png_write_info(png_ptr, info_ptr);
-
-	// Free up our user-defined text.
+	// Free up our user-defined text, of which libpng has its own copy now.
 	if (text[1].text)
 		ifree(text[1].text);
 	if (text[2].text)
@@ -683,6 +682,9 @@ ILboolean iSavePngInternal()
 	if (text[3].text)
 		ifree(text[3].text);
 
+	// Write the file header information.  REQUIRED.
+	png_write_info(png_ptr, info_ptr);
+
 	/* Shift the pixels up to a legal bit depth and fill in
 	* as appropriate to correctly scale the image.
 	*/
-- 
2.43.0


From 62ed29c28f29f06dec7c95a84173f9bf6aa408af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 23/72] fix: registering mipmaps links them as mipmaps

---
 DevIL/src-IL/src/il_register.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index b2ca9c4..ac4ef11 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -334,14 +334,14 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 	Num--;
 
 	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
+		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
 			ilCloseImage(iCurImage->Mipmaps);
 			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
-		Next = Next->Next;
+		Next = Next->Mipmaps;
 		Num--;
 	}
 
-- 
2.43.0


From c22d987413feaad7b07e3321c75219c5abdeee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 24/72] fix: clearing alpha images, key colour conversion and
 failures without an error

---
 DevIL/src-IL/src/il_convert.cpp  | 17 ++++++++++++++---
 DevIL/src-IL/src/il_devil.cpp    |  5 +++++
 DevIL/src-IL/src/il_manip.cpp    |  4 +++-
 DevIL/src-ILU/src/ilu_filter.cpp |  4 ++--
 DevIL/src-ILU/src/ilu_rotate.cpp |  1 +
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index dbe74ae..3c47ed7 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -376,6 +376,8 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 }
 
 
+static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
+
 //! Converts the current image to the DestFormat format.
 /*! \param DestFormat An enum of the desired output format.  Any format values are accepted.
     \param DestType An enum of the desired output type.  Any type values are accepted.
@@ -386,6 +388,7 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 {
 	ILimage *Image, *Images, *Keyed, **Last, *pCurImage;
+	ILboolean	UseKey = IL_FALSE;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -408,11 +411,20 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 	for (pCurImage = iCurImage; pCurImage != NULL; pCurImage = pCurImage->Next)
 	{
 		Keyed = NULL;
-		if (pCurImage == iCurImage && ilIsEnabled(IL_USE_KEY_COLOUR)) {
+		// Only three-channel and paletted images can be given an alpha channel from the key colour.
+		UseKey = pCurImage == iCurImage && ilIsEnabled(IL_USE_KEY_COLOUR);
+		if (UseKey && pCurImage->Format == IL_COLOUR_INDEX)
+			UseKey = (ILuint)(KeyAlpha * UCHAR_MAX) < (ILuint)ilGetInteger(IL_PALETTE_NUM_COLS);
+		else if (UseKey)
+			UseKey = pCurImage->Bpp == 3;
+		if (UseKey) {
 			Keyed = ilCopyImage_(pCurImage);
 			if (Keyed != NULL) {
 				iCurImage = Keyed;
-				ilAddAlphaKey(Keyed);
+				if (!ilAddAlphaKey(Keyed)) {
+					ilCloseImage(Keyed);
+					Keyed = NULL;
+				}
 				iCurImage = pCurImage;
 			}
 			*Last = Keyed ? iConvertImage(Keyed, DestFormat, DestType) : NULL;
@@ -686,7 +698,6 @@ ILboolean ilAddAlpha()
 }
 
 
-static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 4e8adcb..b7ad1f5 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -419,6 +419,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_LUMINANCE:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
@@ -469,6 +470,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_LUMINANCE:
 					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
@@ -519,6 +521,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_LUMINANCE:
 					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
 					break;
@@ -568,6 +571,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[3] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_LUMINANCE:
 					FloatPtr[0] = ClearAlpha;
 					break;
@@ -617,6 +621,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[3] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_LUMINANCE:
 					DblPtr[0] = ClearAlpha;
 					break;
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index a3de4a9..ad9d762 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -1156,8 +1156,10 @@ ILboolean ILAPIENTRY ilClampNTSC(void)
         return IL_FALSE;
     }
 
-	if (iCurImage->Type != IL_UNSIGNED_BYTE)  // Should we set an error here?
+	if (iCurImage->Type != IL_UNSIGNED_BYTE) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
+	}
 
 	for (z = 0; z < iCurImage->Depth; z++) {
 		for (y = 0; y < iCurImage->Height; y++) {
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index b7054f6..f46b944 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -1138,7 +1138,7 @@ ILboolean ILAPIENTRY iluAlienify(void)
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
@@ -1359,7 +1359,7 @@ ILboolean ILAPIENTRY iluSepia(void)
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index 21a4137..6f6a005 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -369,5 +369,6 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate3D_(ILimage *Image, ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 {
 	Image; x; y; z; Angle;
+	ilSetError(ILU_ILLEGAL_OPERATION);  // Not implemented.
 	return NULL;
 }
-- 
2.43.0


From bcd45e557fa55517421b2f8af2cd1abf5b00b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 25/72] fix: PNM and PSD loads with missing data end and report
 it; values that could not be read are 0

---
 DevIL/src-IL/src/il_devil.cpp  |  4 +++-
 DevIL/src-IL/src/il_endian.cpp | 24 ++++++++++++------------
 DevIL/src-IL/src/il_pnm.cpp    | 11 ++++++++---
 DevIL/src-IL/src/il_psd.cpp    |  8 ++++++--
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index b7ad1f5..6ba69df 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -91,6 +91,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImage(ILuint Width, ILuint Height, ILuint Depth,
 	ILimage *Image;
 
 	if (Bpp == 0 || Bpp > 4) {
+		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
@@ -114,6 +115,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	ILimage *Image;
 
 	if (Bpp == 0 || Bpp > 4) {
+		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
@@ -653,7 +655,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 //! Clears the current bound image to the values specified in ilClearColour
 ILboolean ILAPIENTRY ilClearImage()
 {
-	if (iCurImage == NULL) {
+	if (iCurImage == NULL || iCurImage->Data == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 60a42f1..0c7ff2a 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -85,7 +85,7 @@ void iSwapDouble(ILdouble *d) {
 
 
 ILushort GetLittleUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUShort(&s);
@@ -94,7 +94,7 @@ ILushort GetLittleUShort() {
 }
 
 ILshort GetLittleShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapShort(&s);
@@ -103,7 +103,7 @@ ILshort GetLittleShort() {
 }
 
 ILuint GetLittleUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUInt(&i);
@@ -112,7 +112,7 @@ ILuint GetLittleUInt() {
 }
 
 ILint GetLittleInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapInt(&i);
@@ -121,7 +121,7 @@ ILint GetLittleInt() {
 }
 
 ILfloat GetLittleFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapFloat(&f);
@@ -130,7 +130,7 @@ ILfloat GetLittleFloat() {
 }
 
 ILdouble GetLittleDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapDouble(&d);
@@ -139,7 +139,7 @@ ILdouble GetLittleDouble() {
 }
 
 ILushort GetBigUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUShort(&s);
@@ -148,7 +148,7 @@ ILushort GetBigUShort() {
 }
 
 ILshort GetBigShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapShort(&s);
@@ -157,7 +157,7 @@ ILshort GetBigShort() {
 }
 
 ILuint GetBigUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUInt(&i);
@@ -166,7 +166,7 @@ ILuint GetBigUInt() {
 }
 
 ILint GetBigInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapInt(&i);
@@ -175,7 +175,7 @@ ILint GetBigInt() {
 }
 
 ILfloat GetBigFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapFloat(&f);
@@ -184,7 +184,7 @@ ILfloat GetBigFloat() {
 }
 
 ILdouble GetBigDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapDouble(&d);
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index b598252..34773f6 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -579,15 +579,19 @@ ILboolean iGetWord(ILboolean final)
 	ILboolean Started = IL_FALSE;
 	ILboolean Looping = IL_TRUE;
 
-	if (ieof())
+	if (ieof()) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	while (Looping)
 	{
 		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
 		{
-			if (WordPos >= MAX_BUFFER - 1)  // We have hit the maximum line length.
+			if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
+				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
+			}
 
 			if (!isalnum(Current) && Current != '_') {
 				if (Started) {
@@ -618,7 +622,8 @@ ILboolean iGetWord(ILboolean final)
 			if (Current != ' ')
 				break;
 		}
-		iseek(-1, IL_SEEK_CUR);
+		if (Current != IL_EOF)
+			iseek(-1, IL_SEEK_CUR);
 
 		if (WordPos > 0)
 			break;
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 5e9c12e..98e1cdd 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -311,13 +311,17 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 		goto cleanup_error;
 
 	MiscInfo = GetBigUInt();
-	if (ieof())
+	if (ieof()) {
+		ilSetError(IL_FILE_READ_ERROR);
 		goto cleanup_error;
+	}
 	iseek(MiscInfo, IL_SEEK_CUR);
 
 	Compressed = GetBigUShort();
-	if (ieof())
+	if (ieof()) {
+		ilSetError(IL_FILE_READ_ERROR);
 		goto cleanup_error;
+	}
 
 	if (Head->Channels != 1 || Head->Depth != 8) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-- 
2.43.0


From bee6f2979c9de734e689d5813ab85c885fa997b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 26/72] fix: a TGA that could not be read and a canvas that
 could not be cleared are reported

---
 DevIL/src-IL/src/il_targa.cpp   | 2 ++
 DevIL/src-ILU/src/ilu_manip.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 63569c6..4c9861d 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -218,6 +218,8 @@ ILboolean iLoadTargaInternal()
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
+	if (!bTarga)
+		return IL_FALSE;
 	
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 83d0ddc..1edbb8a 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -75,6 +75,7 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILubyte	*Data/*, Clear[4]*/;
 	ILuint	y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
+	ILboolean	Cleared;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL || iluCurImage->Data == NULL) {
@@ -164,7 +165,9 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		return IL_FALSE;
 	}
 
-	ilClearImage();
+	Cleared = ilClearImage();
+	if (!Cleared)  // Ran out of memory
+		imemclear(iluCurImage->Data, iluCurImage->SizeOfData);
 	/*ilGetClear(Clear);
 	if (iluCurImage->Bpp == 1) {
 		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
@@ -186,7 +189,7 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 
 	ifree(Data);
 
-	return IL_TRUE;
+	return Cleared;
 }
 
 //! Flips an image over its x axis
-- 
2.43.0


From 98a04c883e7d857422b8f7057c4ae7cee492aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 27/72] fix: converting a 16-bit TGA colour map reads and
 writes the right bytes

---
 DevIL/src-IL/src/il_targa.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 4c9861d..86824eb 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -306,10 +306,10 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 			Pixel = GetBigUShort();
 			if (ieof())
 				return IL_FALSE;
-			iCurImage->Pal.Palette[3] = (Pixel & 0x8000) >> 12;
-			iCurImage->Pal.Palette[0] = (Pixel & 0xFC00) >> 7;
-			iCurImage->Pal.Palette[1] = (Pixel & 0x03E0) >> 2;
-			iCurImage->Pal.Palette[2] = (Pixel & 0x001F) << 3;
+			iCurImage->Pal.Palette[i + 3] = (Pixel & 0x8000) >> 12;
+			iCurImage->Pal.Palette[i] = (Pixel & 0xFC00) >> 7;
+			iCurImage->Pal.Palette[i + 1] = (Pixel & 0x03E0) >> 2;
+			iCurImage->Pal.Palette[i + 2] = (Pixel & 0x001F) << 3;
 		}
 	}
 	
-- 
2.43.0


From b96ee4981cdd457fe579bc673373fc3b59125caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 28/72] fix: iluLoadImage loads into the image whose name it
 returns

---
 DevIL/src-ILU/src/ilu_main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_main.cpp b/DevIL/src-ILU/src/ilu_main.cpp
index 535ae94..468244d 100644
--- a/DevIL/src-ILU/src/ilu_main.cpp
+++ b/DevIL/src-ILU/src/ilu_main.cpp
@@ -58,11 +58,18 @@ void ILAPIENTRY iluInit()
 //#ifndef _WIN32_WCE
 ILuint ILAPIENTRY iluLoadImage(ILconst_string FileName)
 {
-	ILuint Id;
+	ILuint Id = 0, OldId;
+	ILimage *OldImage;
+
 	ilGenImages(1, &Id);
 	if (Id == 0)
 		return 0;
+	OldId = ilGetCurName();
+	OldImage = ilGetCurImage();
+	ilBindImage(Id);
 	if (!ilLoadImage(FileName)) {
+		ilBindImage(OldId);
+		ilSetCurImage(OldImage);  // May be a sub-image of the bound image.
 		ilDeleteImages(1, &Id);
 		return 0;
 	}
-- 
2.43.0


From 6942df8bb4f6666dbaf1b8393db1b6a0b078730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 29/72] fix: iluRotate3D reports that the image could not be
 resized

---
 DevIL/src-ILU/src/ilu_rotate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index 6f6a005..40c9c71 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -75,7 +75,10 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 	iluCurImage = ilGetCurImage();
 	Temp = iluRotate3D_(iluCurImage, x, y, z, Angle);
 	if (Temp != NULL) {
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
+		if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
+			ilCloseImage(Temp);
+			return IL_FALSE;
+		}
 		iluCurImage->Origin = Temp->Origin;
 		ilSetPal(&Temp->Pal);
 		ilCloseImage(Temp);
-- 
2.43.0


From 3835e2d4a0b4e5c638b27064781b83849a8f540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 30/72] fix: regions are stored, filled and released correctly
 and running out of memory is reported

---
 DevIL/src-ILU/include/ilu_internal.h |   2 +-
 DevIL/src-ILU/src/ilu_filter.cpp     |   8 +-
 DevIL/src-ILU/src/ilu_manip.cpp      |   5 +-
 DevIL/src-ILU/src/ilu_noise.cpp      |   3 +-
 DevIL/src-ILU/src/ilu_region.cpp     | 150 +++++++++++++--------------
 5 files changed, 84 insertions(+), 84 deletions(-)

diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index 0185976..45e3cd5 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -79,7 +79,7 @@ ILint ilRound(ILfloat Num);
 
 
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
-ILubyte	*iScanFill(void);
+ILboolean	iScanFill(ILubyte **Mask);
 ILboolean iTexImageKeepPal(ILuint Width, ILuint Height, ILuint Depth);
 
 
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index f46b944..a1c85f4 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -31,7 +31,8 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 			return IL_FALSE;
 	}
 
-	RegionMask = iScanFill();
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
 
 	switch (iluCurImage->Bpc)
 	{
@@ -209,7 +210,10 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		return NULL;
 	}
 
-	RegionMask = iScanFill();
+	if (!iScanFill(&RegionMask)) {
+		ifree(Data);
+		return NULL;
+	}
 
 	// Preserve original data.
 	ImgData = Image->Data;
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 1edbb8a..8b5c88f 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -324,7 +324,10 @@ ILboolean ILAPIENTRY iluNegative()
 		i = iluCurImage->SizeOfData;
 	}
 
-	RegionMask = iScanFill();
+	RegionMask = NULL;
+	// A region does not apply to a palette, which is shared by all pixels.
+	if (iluCurImage->Format != IL_COLOUR_INDEX && !iScanFill(&RegionMask))
+		return IL_FALSE;
 	
 	// @TODO:  Optimize this some.
 
diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 217f2b0..8087d45 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -33,7 +33,8 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		return IL_FALSE;
 	}
 
-	RegionMask = iScanFill();
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
 
 	// @TODO:  Change this to work correctly without time()!
 	//srand(time(NULL));
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..25a8b58 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -19,25 +19,31 @@ ILpointf	*RegionPointsf = NULL;
 ILuint		PointNum = 0;
 ILubyte		*iRegionMask = NULL;
 
+static void iClearRegion()
+{
+	ifree(RegionPointsi);
+	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	RegionPointsf = NULL;
+	PointNum = 0;
+}
+
+
 void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 {
 	if (Points == NULL || n == 0) {
-		ifree(RegionPointsi);
-		ifree(RegionPointsf);
-		RegionPointsf = NULL;
-		PointNum = 0;
+		iClearRegion();
 		return;
 	}
 	if (n < 3) {
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
-	ifree(RegionPointsi);
-	ifree(RegionPointsf);
+	iClearRegion();
 	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
 	if (RegionPointsf == NULL)
 		return;
-	memcpy(RegionPointsf, Points, sizeof(ILpointi) * n);
+	memcpy(RegionPointsf, Points, sizeof(ILpointf) * n);
 	PointNum = n;
 	return;
 }
@@ -46,18 +52,14 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 {
 	if (Points == NULL || n == 0) {
-		ifree(RegionPointsi);
-		ifree(RegionPointsf);
-		RegionPointsi = NULL;
-		PointNum = 0;
+		iClearRegion();
 		return;
 	}
 	if (n < 3) {
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
-	ifree(RegionPointsi);
-	ifree(RegionPointsf);
+	iClearRegion();
 	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
 	if (RegionPointsi == NULL)
 		return;
@@ -111,7 +113,7 @@ ILint yNext(ILint k, ILint cnt, ILpointi *pts)
 // Store lower-y coordinate and inverse slope for each edge.  Adjust
 //	and store upper-y coordinate for edges that are the lower member
 //	of a monotonically increasing or decreasing pair of edges
-void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *edges[])
+void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *edges)
 {
 	edge->dxPerScan = (ILfloat)(upper.x - lower.x) / (upper.y - lower.y);
 	edge->xIntersect = (ILfloat)lower.x;
@@ -120,13 +122,13 @@ void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *
 	else
 		edge->yUpper = upper.y;
 
-	InsertEdge(edges[lower.y], edge);
+	InsertEdge(&edges[lower.y], edge);
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+// Takes a record for each edge from the array edge.
+void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge *edges, Edge *edge)
 {
-	Edge *edge;
 	ILpointi v1, v2;
 	ILuint i;
 	ILint yPrev = pts[cnt - 2].y;
@@ -137,12 +139,11 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 	for (i = 0; i < cnt; i++) {
 		v2 = pts[i];
 		if (v1.y != v2.y) {			// nonhorizontal line
-			edge = (Edge*)ialloc(sizeof(Edge));
 			if (v1.y < v2.y) {		// up-going edge
-				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
+				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge++, edges);
 			}
 			else {					// down-going edge
-				MakeEdgeRec(v2, v1, yPrev, edge, edges);
+				MakeEdgeRec(v2, v1, yPrev, edge++, edges);
 			}
 		}
 		yPrev = v1.y;
@@ -151,11 +152,11 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 }
 
 
-void BuildActiveList(ILint scan, Edge *active, Edge *edges[])
+void BuildActiveList(ILint scan, Edge *active, Edge *edges)
 {
 	Edge *p, *q;
 
-	p = edges[scan]->next;
+	p = edges[scan].next;
 	while (p) {
 		q = p->next;
 		InsertEdge(active, p);
@@ -175,7 +176,9 @@ void FillScan(ILint scan, Edge *active)
 	p1 = active->next;
 	while (p1) {
 		p2 = p1->next;
-		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect; i++) {
+		if (p2 == NULL)
+			break;
+		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect && i < (ILint)iluCurImage->Width; i++) {
 			iRegionSetPixel((ILuint)i, scan);
 		}
 		p1 = p2->next;
@@ -187,7 +190,6 @@ void DeleteAfter(Edge *q)
 {
 	Edge *p = q->next;
 	q->next = p->next;
-	free(p);
 }
 
 
@@ -223,82 +225,72 @@ void ResortActiveList(Edge *active)
 }
 
 
-ILubyte *iScanFill()
+// Gives the mask of the pixels that are in the region, or NULL if the whole image is to be processed
+//  (there is no region, or it is not inside of the image).  Returns IL_FALSE when out of memory.
+ILboolean iScanFill(ILubyte **Mask)
 {
-	Edge	**edges = NULL, *active = NULL/*, *temp*/;
-	ILuint	i, scan;
+	Edge		*edges = NULL, *records = NULL, active;
+	ILpointi	*Points = NULL;
+	ILfloat		x, y;
+	ILuint		i, scan, MaskSize;
 
-	iRegionMask = NULL;
+	*Mask = iRegionMask = NULL;
 
 	if ((RegionPointsi == NULL && RegionPointsf == NULL) || PointNum == 0)
-		return NULL;
+		return IL_TRUE;
 
-	if (RegionPointsf) {
-		RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
-		if (RegionPointsi == NULL)
-			goto error;
-	}
+	Points = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
+	if (Points == NULL)
+		goto error;
 
 	for (i = 0; i < PointNum; i++) {
 		if (RegionPointsf) {
-			RegionPointsi[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
-			RegionPointsi[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
+			x = iluCurImage->Width * RegionPointsf[i].x;
+			y = iluCurImage->Height * RegionPointsf[i].y;
+		}
+		else {
+			x = (ILfloat)RegionPointsi[i].x;
+			y = (ILfloat)RegionPointsi[i].y;
 		}
-		if (RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
-			goto error;
+		if (!(x >= 0 && x < iluCurImage->Width && y >= 0 && y < iluCurImage->Height)) {
+			ifree(Points);
+			return IL_TRUE;
+		}
+		Points[i].x = (ILint)x;
+		Points[i].y = (ILint)y;
 	}
 
-	edges = (Edge**)ialloc(sizeof(Edge*) * iluCurImage->Height);
-	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-	if (edges == NULL || iRegionMask == NULL)
+	MaskSize = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+	edges = (Edge*)icalloc(iluCurImage->Height, sizeof(Edge));  // Heads of the lists
+	records = (Edge*)ialloc(sizeof(Edge) * PointNum);
+	iRegionMask = (ILubyte*)icalloc(MaskSize, 1);
+	if (edges == NULL || records == NULL || iRegionMask == NULL)
 		goto error;
-	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
 
-	for (i = 0; i < iluCurImage->Height; i++) {
-		edges[i] = (Edge*)ialloc(sizeof(Edge));
-		edges[i]->next = NULL;
-	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
-	active = (Edge*)ialloc(sizeof(Edge));
-	active->next = NULL;
+	BuildEdgeList(PointNum, Points, edges, records);
+	active.next = NULL;
 
 	for (scan = 0; scan < iluCurImage->Height; scan++) {
-		BuildActiveList(scan, active, edges);
-		if (active->next) {
-			FillScan(scan, active);
-			UpdateActiveList(scan, active);
-			ResortActiveList(active);
+		BuildActiveList(scan, &active, edges);
+		if (active.next) {
+			FillScan(scan, &active);
+			UpdateActiveList(scan, &active);
+			ResortActiveList(&active);
 		}
 	}
 
-	// Free edge records that have been allocated.
-	/*for (i = 0; i < iluCurImage->Height; i++) {
-		while (edges[i]) {
-			temp = edges[i]->next;
-			ifree(edges[i]);
-			edges[i] = temp;
-		}
-	}*/
-
+	ifree(records);
 	ifree(edges);
+	ifree(Points);
 
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
-
-	return iRegionMask;
+	*Mask = iRegionMask;
+	return IL_TRUE;
 
 error:
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
-
-	// Free edge records that have been allocated.
-
-	ifree(edges);
 	ifree(iRegionMask);
-	return NULL;
+	iRegionMask = NULL;
+	ifree(records);
+	ifree(edges);
+	ifree(Points);
+	return IL_FALSE;
 }
-
-- 
2.43.0


From 1278995bd7ab004b6f4a131c6186c6ba087b8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 31/72] fix: ilApplyProfile reads the profile of the image,
 checks what it opens and transforms every pixel

---
 DevIL/src-IL/src/il_profiles.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_profiles.cpp b/DevIL/src-IL/src/il_profiles.cpp
index 695f9a2..bac964c 100644
--- a/DevIL/src-IL/src/il_profiles.cpp
+++ b/DevIL/src-IL/src/il_profiles.cpp
@@ -124,17 +124,22 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 		case IL_UNSIGNED_INT:
 		case IL_FLOAT:
 		case IL_DOUBLE:
+		default:
 			ilSetError(IL_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
+	if (OutProfile == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
 	if (InProfile == NULL) {
 		if (!iCurImage->Profile || !iCurImage->ProfileSize) {
 			ilSetError(IL_INVALID_PARAM);
 			return IL_FALSE;
 		}
-		hInProfile = iCurImage->Profile;
+		hInProfile = cmsOpenProfileFromMem(iCurImage->Profile, iCurImage->ProfileSize);
 	}
 	else {
 #ifndef _UNICODE
@@ -144,29 +149,43 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 		hInProfile = cmsOpenProfileFromFile(AnsiName, "r");
 #endif//_UNICODE
 	}
+	if (hInProfile == NULL) {
+		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
+	}
 #ifndef _UNICODE
  	hOutProfile = cmsOpenProfileFromFile(OutProfile, "r");
 #else
 	wcstombs(AnsiName, OutProfile, 512);
 	hOutProfile = cmsOpenProfileFromFile(AnsiName, "r");
 #endif//_UNICODE
+	if (hOutProfile == NULL) {
+		cmsCloseProfile(hInProfile);
+		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
+	}
 
 	hTransform = cmsCreateTransform(hInProfile, Format, hOutProfile, Format, INTENT_PERCEPTUAL, 0);
+	cmsCloseProfile(hInProfile);
+	cmsCloseProfile(hOutProfile);
+	if (hTransform == NULL) {  // The profiles do not fit the format of the image.
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
 	Temp = (ILubyte*)ialloc(iCurImage->SizeOfData);
 	if (Temp == NULL) {
+		cmsDeleteTransform(hTransform);
 		return IL_FALSE;
 	}
 
-	cmsDoTransform(hTransform, iCurImage->Data, Temp, iCurImage->SizeOfData / 3);
+	memcpy(Temp, iCurImage->Data, iCurImage->SizeOfData);  // Alpha is not transformed.
+	cmsDoTransform(hTransform, iCurImage->Data, Temp, iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 
 	ifree(iCurImage->Data);
 	iCurImage->Data = Temp;
 
 	cmsDeleteTransform(hTransform);
-	if (InProfile != NULL)
-		cmsCloseProfile(hInProfile);
-	cmsCloseProfile(hOutProfile);
 
 #endif//IL_NO_LCMS
 
-- 
2.43.0


From d7bb4661042c35e0bcab11d6f176727504100746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 32/72] fix: iluConvolution sets the image that the filter code
 works on

---
 DevIL/src-ILU/src/ilu_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index a1c85f4..a2f7738 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -1287,8 +1287,8 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	ILubyte		*Data;
 	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
 	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
-	
+
+	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
-- 
2.43.0


From 352a6b7d50946ac7e2e6a82fc5d3bfaa20d8e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 33/72] fix: GIF loading keeps frames inside the image, copes
 with missing data and releases the global palette

---
 DevIL/src-IL/src/il_gif.cpp | 86 ++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..45eb50e 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -143,9 +143,11 @@ ILboolean iLoadGifInternal()
 
 	GlobalPal.Palette = NULL;
 	GlobalPal.PalSize = 0;
+	GlobalPal.PalType = IL_PAL_NONE;
 
 	//read header
-	iread(&Header.Sig, 1, 6);
+	if (iread(&Header.Sig, 1, 6) != 6)
+		return IL_FALSE;
   	Header.Width = GetLittleUShort();
     Header.Height = GetLittleUShort();
 	Header.ColourInfo = igetc();
@@ -174,8 +176,10 @@ ILboolean iLoadGifInternal()
 		}
 	}
 
-	if (!GetImages(&GlobalPal, &Header))
+	if (!GetImages(&GlobalPal, &Header)) {
+		ifree(GlobalPal.Palette);
 		return IL_FALSE;
+	}
 
 	if (GlobalPal.Palette && GlobalPal.PalSize)
 		ifree(GlobalPal.Palette);
@@ -188,7 +192,7 @@ ILboolean iLoadGifInternal()
 
 ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage)
 {
-	ILuint PalSize, PalOffset = 0;
+	ILuint PalSize, PalOffset = 0, i, Bpp;
 
 	// If we have a local palette and have to use the previous frame as well,
 	//  we have to copy the palette from the previous frame, in addition
@@ -202,25 +206,29 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-		PalSize = PalSize + PrevImage->Pal.PalSize;
-		PalOffset = PrevImage->Pal.PalSize;
+		PalOffset = PrevImage->Pal.PalSize / ilGetBppPal(PrevImage->Pal.PalType) * 3;
+		PalSize = PalSize + PalOffset;
 	}
 	if (PalSize > 256 * 3) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	Pal->PalSize = PalSize;
-
-	Pal->PalType = IL_PAL_RGB24;
 	//Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
 	Pal->Palette = (ILubyte*)ialloc(256 * 3);
 	if (Pal->Palette == NULL)
 		return IL_FALSE;
-	if (UsePrevPal)
-		memcpy(Pal->Palette, PrevImage->Pal.Palette, PrevImage->Pal.PalSize);  // Copy the old palette over.
-	if (iread(Pal->Palette + PalOffset, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
+	Pal->PalSize = PalSize;
+	Pal->PalType = IL_PAL_RGB24;
+	if (UsePrevPal) {  // Copy the old palette over, which may have been given an alpha channel.
+		Bpp = ilGetBppPal(PrevImage->Pal.PalType);
+		for (i = 0; i < PalOffset / 3; i++)
+			memcpy(Pal->Palette + i * 3, PrevImage->Pal.Palette + i * Bpp, 3);
+	}
+	if (iread(Pal->Palette + PalOffset, 1, PalSize - PalOffset) != PalSize - PalOffset) {  // Read the new palette.
 		ifree(Pal->Palette);
 		Pal->Palette = NULL;
+		Pal->PalSize = 0;
+		Pal->PalType = IL_PAL_NONE;
 		return IL_FALSE;
 	}
 
@@ -241,7 +249,7 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 	OldImageDesc.ImageInfo = 0; // to initialize the data with an harmless value 
 	Gfx.Used = IL_TRUE;
 
-	while (!ieof()) {
+	while (1) {
 		ILubyte DisposalMethod = 1;
 		
 		i = itell();
@@ -253,21 +261,26 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 			DisposalMethod = (Gfx.Packed & 0x1C) >> 2;
 
 		//read image descriptor
-		ImageDesc.Separator = igetc();
+		input = igetc();
+		if (input == IL_EOF)
+			goto error_clean;
+		ImageDesc.Separator = input;
 		if (ImageDesc.Separator != 0x2C) //end of image
 			break;
 		ImageDesc.OffX = GetLittleUShort();
 		ImageDesc.OffY = GetLittleUShort();
 		ImageDesc.Width = GetLittleUShort();
 		ImageDesc.Height = GetLittleUShort();
-		ImageDesc.ImageInfo = igetc();
+		if (iread(&ImageDesc.ImageInfo, 1, 1) != 1)
+			goto error_clean;
 
-		if (ieof()) {
-			ilGetError();  // Gets rid of the IL_FILE_READ_ERROR that inevitably results.
-			break;
+		// The frame has to lie inside of the image.
+		if ((ILuint)ImageDesc.OffX + ImageDesc.Width > iCurImage->Width ||
+			(ILuint)ImageDesc.OffY + ImageDesc.Height > iCurImage->Height) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto error_clean;
 		}
 
-
 		if (!BaseImage) {
 			NumImages++;
 			Image->Next = ilNewImage(iCurImage->Width, iCurImage->Height, 1, 1, 1);
@@ -316,7 +329,7 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 		if (ImageDesc.ImageInfo & (1 << 7)) {
 			ILboolean UsePrevPal = IL_FALSE;
 			if (DisposalMethod == 1 && NumImages != 0) {  // Cannot be the first image for this.
-				PalOffset = PrevImage->Pal.PalSize;
+				PalOffset = PrevImage->Pal.PalSize / ilGetBppPal(PrevImage->Pal.PalType);
 				UsePrevPal = IL_TRUE;
 			}
 			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal, UsePrevPal, PrevImage)) {
@@ -482,14 +495,14 @@ ILint get_next_code(void) {
 				return ending;
 			}
 
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
+			if (navail_bytes == 0)  // The data ends here.
+				return ending;
+			for (i = 0; i < navail_bytes; i++) {
+				if((t = igetc()) == IL_EOF) {
+					success = IL_FALSE;
+					return ending;
 				}
+				byte_buff[i] = t;
 			}
 		}
 		b1 = *pbytes++;
@@ -508,14 +521,14 @@ ILint get_next_code(void) {
 				return ending;
 			}
 
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
+			if (navail_bytes == 0)  // The data ends here.
+				return ending;
+			for (i = 0; i < navail_bytes; i++) {
+				if((t = igetc()) == IL_EOF) {
+					success = IL_FALSE;
+					return ending;
 				}
+				byte_buff[i] = t;
 			}
 		}
 		b1 = *pbytes++;
@@ -569,6 +582,7 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 	ending = clear + 1;
 	slot = newcodes = ending + 1;
 	navail_bytes = nbits_left = 0;
+	success = IL_TRUE;
 	oc = fc = 0;
 	sp = stack;
 
@@ -616,8 +630,10 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
                 *sp++ = fc;
 			}
 
-            if (code >= MAX_CODES)
+            if (code >= MAX_CODES) {
+                cleanUpGifLoadState();
                 return IL_FALSE; 
+            }
                 while (code >= newcodes)
 				{
                     if (sp >= stack + MAX_CODES)
@@ -667,7 +683,7 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 		}
 	}
 	cleanUpGifLoadState();
-	return IL_TRUE;
+	return success;
 }
 
 
-- 
2.43.0


From c68c910006b2eacfa0f9bf545cc9fadbe38b2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 34/72] fix: CUT, LIF, PIX and Sun rasters with missing data
 are not reported as loaded

---
 DevIL/src-IL/src/il_cut.cpp | 10 ++++++---
 DevIL/src-IL/src/il_lif.cpp |  2 +-
 DevIL/src-IL/src/il_pix.cpp |  2 +-
 DevIL/src-IL/src/il_sun.cpp | 41 +++++++++++++++++++++++--------------
 4 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index b5e9e91..8c88c01 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -82,6 +82,7 @@ ILboolean iLoadCutInternal()
 {
 	CUT_HEAD	Header;
 	ILuint		Size, i = 0, j;
+	ILint		Byte;
 	ILubyte		Count, Run;
 
 	if (iCurImage == NULL) {
@@ -106,7 +107,10 @@ ILboolean iLoadCutInternal()
 	Size = Header.Width * Header.Height;
 
 	while (i < Size) {
-		Count = igetc();
+		Byte = igetc();
+		if (Byte == IL_EOF)
+			return IL_FALSE;
+		Count = (ILubyte)Byte;
 		if (Count == 0) { // end of row
 			igetc();  // Not supposed to be here, but
 			igetc();  //  PSP is putting these two bytes here...WHY?!
@@ -115,12 +119,12 @@ ILboolean iLoadCutInternal()
 		if (Count & BIT_7) {  // rle-compressed
 			ClearBits(Count, BIT_7);
 			Run = igetc();
-			for (j = 0; j < Count; j++) {
+			for (j = 0; j < Count && i < Size; j++) {
 				iCurImage->Data[i++] = Run;
 			}
 		}
 		else {  // run of pixels
-			for (j = 0; j < Count; j++) {
+			for (j = 0; j < Count && i < Size; j++) {
 				iCurImage->Data[i++] = igetc();
 			}
 		}
diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 0118f69..ac8c08e 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -110,7 +110,7 @@ ILboolean iCheckLif(LIF_HEAD *Header)
 {
 	if (Header->Version != 260 || Header->Flags != 50)
 		return IL_FALSE;
-	if (stricmp(Header->Id, "Willy 7"))
+	if (strnicmp(Header->Id, "Willy 7", 8))
 		return IL_FALSE;
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index e43e60f..eed40f9 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -143,7 +143,7 @@ ILboolean iLoadPixInternal()
 		ByteHead = igetc();
 		if (iread(Colour, 1, 3) != 3)
 			return IL_FALSE;
-		for (j = 0; j < ByteHead; j++) {
+		for (j = 0; j < ByteHead && i < iCurImage->SizeOfData; j++) {
 			iCurImage->Data[i++] = Colour[0];
 			iCurImage->Data[i++] = Colour[1];
 			iCurImage->Data[i++] = Colour[2];
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 9f72f95..d00527b 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -221,18 +221,25 @@ ILboolean iLoadSunInternal(void)
 			if (File == NULL)
 				return IL_FALSE;
 
-			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
+				bclose(File);
 				return IL_FALSE;
+			}
 			if (Header.ColorMapLength != 0) {
 				// Data should be an index into the color map, but the color map should only be RGB (6 bytes, 2 entries).
 				if (Header.ColorMapLength != 6) {
+					bclose(File);
 					ilSetError(IL_INVALID_FILE_HEADER);
 					return IL_FALSE;
 				}
 			}
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
-			if (iCurImage->Pal.Palette == NULL)
+			if (iCurImage->Pal.Palette == NULL) {
+				bclose(File);
 				return IL_FALSE;
+			}
+			iCurImage->Pal.PalSize = 6;
+			iCurImage->Pal.PalType = IL_PAL_RGB24;
 			if (Header.ColorMapLength == 0) {  // Create the color map
 				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
 				iCurImage->Pal.Palette[1] = 0x00;
@@ -241,20 +248,23 @@ ILboolean iLoadSunInternal(void)
 				iCurImage->Pal.Palette[4] = 0xFF;
 				iCurImage->Pal.Palette[5] = 0xFF;
 			}
-			else {
-				iread(iCurImage->Pal.Palette, 1, 6);  // Read in the color map.
+			else if (iread(iCurImage->Pal.Palette, 1, 6) != 6) {  // Read in the color map.
+				bclose(File);
+				return IL_FALSE;
 			}
-			iCurImage->Pal.PalSize = 6;
-			iCurImage->Pal.PalType = IL_PAL_RGB24;
 
 			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
 
 			// Reads the bits
 			for (i = 0; i < iCurImage->Height; i++) {
-				bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
+				if (bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File) != (ILint)iCurImage->Width) {
+					bclose(File);
+					return IL_FALSE;
+				}
 				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
 				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
 			}
+			bclose(File);
 			break;
 
 
@@ -269,19 +279,19 @@ ILboolean iLoadSunInternal(void)
 				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
 				if (iCurImage->Pal.Palette == NULL)
 					return IL_FALSE;
+				iCurImage->Pal.PalSize = Header.ColorMapLength;
+				iCurImage->Pal.PalType = IL_PAL_RGB24;
 				if (iread(iCurImage->Pal.Palette, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
 					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
 				}
-
-				iCurImage->Pal.PalSize = Header.ColorMapLength;
-				iCurImage->Pal.PalType = IL_PAL_RGB24;
 			}
 
 			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
 				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
 				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps);
+					if (iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps) != iCurImage->Bps)
+						return IL_FALSE;
 					if (Padding)  // Only possible for padding to be 0 or 1.
 						igetc();
 				}
@@ -311,7 +321,8 @@ ILboolean iLoadSunInternal(void)
 			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
 				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
 				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps);
+					if (iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps) != iCurImage->Bps)
+						return IL_FALSE;
 					if (Padding)  // Only possible for padding to be 0 or 1.
 						igetc();
 				}
@@ -344,9 +355,9 @@ ILboolean iLoadSunInternal(void)
 			for (i = 0; i < Header.Height; i++) {
 				for (j = 0; j < Header.Width; j++) {
 					igetc();  // There is a pad byte before each pixel.
-					iCurImage->Data[Offset]   = igetc();
-					iCurImage->Data[Offset+1] = igetc();
-					iCurImage->Data[Offset+2] = igetc();
+					if (iread(iCurImage->Data + Offset, 1, 3) != 3)
+						return IL_FALSE;
+					Offset += 3;
 				}
 			}
 			break;
-- 
2.43.0


From e999e97c3a0daaef118e4a6bef3d3bfe7ae95119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 35/72] fix: DCX pages, PCX images without palette and DXT4
 load within their bounds

---
 DevIL/src-IL/src/il_dcx.cpp | 65 ++++++++++++++++++++++++++++---------
 DevIL/src-IL/src/il_dds.cpp |  2 +-
 DevIL/src-IL/src/il_pcx.cpp |  1 +
 3 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index efe1314..42bceac 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -66,16 +66,25 @@ ILboolean ilIsValidDcxL(const void *Lump, ILuint Size)
 // Internal function obtain the .dcx header from the current file.
 ILboolean iGetDcxHead(DCXHEAD *Head)
 {
+	Head->Manufacturer = igetc();
+	Head->Version = igetc();
+	Head->Encoding = igetc();
+	Head->Bpp = igetc();
 	Head->Xmin = GetLittleUShort();
 	Head->Ymin = GetLittleUShort();
 	Head->Xmax = GetLittleUShort();
 	Head->Ymax = GetLittleUShort();
 	Head->HDpi = GetLittleUShort();
 	Head->VDpi = GetLittleUShort();
+	iread(Head->ColMap, 1, 48);
+	Head->Reserved = igetc();
+	Head->NumPlanes = igetc();
 	Head->Bps = GetLittleUShort();
 	Head->PaletteInfo = GetLittleUShort();
 	Head->HScreenSize = GetLittleUShort();
 	Head->VScreenSize = GetLittleUShort();
+	if (iread(Head->Filler, 1, 54) != 54)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -173,26 +182,34 @@ ILboolean iLoadDcxInternal()
 {
 	DCXHEAD	Header;
 	ILuint	Signature, i, Entries[1024], Num = 0;
-	ILimage	*Image, *Base;
+	ILimage	*Image, *Last;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (!iIsValidDcx())
+	if (!iIsValidDcx()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 	iread(&Signature, 1, 4);
 
+	// The list of the pages ends with a zero.
 	do {
 		if (iread(&Entries[Num], 1, 4) != 4)
 			return IL_FALSE;
-		Num++;
-	} while (Entries[Num-1] != 0);
+	} while (Entries[Num] != 0 && ++Num < 1024);
+	if (Num == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	Last = iCurImage;
 
 	for (i = 0; i < Num; i++) {
 		iseek(Entries[i], IL_SEEK_SET);
-		iGetDcxHead(&Header);
+		if (!iGetDcxHead(&Header))
+			return IL_FALSE;
 		/*if (!iCheckDcx(&Header)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
@@ -203,14 +220,20 @@ ILboolean iLoadDcxInternal()
 			return IL_FALSE;
 
 		if (i == 0) {
-			ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data);
-			Base = iCurImage;
-			Base->Origin = IL_ORIGIN_UPPER_LEFT;
+			if (!ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data)) {
+				ilCloseImage(Image);
+				return IL_FALSE;
+			}
+			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+			iCurImage->Pal = Image->Pal;  // Hands the palette over.
+			Image->Pal.Palette = NULL;
+			Image->Pal.PalSize = 0;
+			Image->Pal.PalType = IL_PAL_NONE;
 			ilCloseImage(Image);
 		}
 		else {
-			iCurImage->Next = Image;
-			iCurImage = iCurImage->Next;
+			Last->Next = Image;
+			Last = Image;
 		}
 	}
 
@@ -305,10 +328,16 @@ ILimage *iUncompressDcx(DCXHEAD *Header)
 
 	//changed 2003-09-01
 	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
-		iPreCache(iCurImage->SizeOfData);
+		iPreCache(Image->SizeOfData);
 
 	//TODO: because the .pcx-code was broken this
 	//code is probably broken, too
+	if (Header->Bps < Image->Width) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		iUnCache();
+		goto dcx_error;
+	}
+
 	for (y = 0; y < Image->Height; y++) {
 		for (c = 0; c < Image->Bpp; c++) {
 			x = 0;
@@ -323,7 +352,7 @@ ILimage *iUncompressDcx(DCXHEAD *Header)
 						iUnCache();
 						goto dcx_error;
 					}
-					for (i = 0; i < ByteHead; i++) {
+					for (i = 0; i < ByteHead && x < Header->Bps; i++) {
 						ScanLine[x++] = Colour;
 					}
 				}
@@ -370,7 +399,8 @@ ILimage *iUncompressDcxSmall(DCXHEAD *Header)
 	ILubyte	HeadByte, Colour, Data = 0, *ScanLine = NULL;
 	ILimage	*Image;
 
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
+	// The planes are put together to one value for each pixel.
+	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 1);
 	if (Image == NULL)
 		return NULL;
 
@@ -425,7 +455,12 @@ ILimage *iUncompressDcxSmall(DCXHEAD *Header)
 		}
 	}
 	else {   // 4-bit images
-		Bps = Header->Bps * Header->NumPlanes * 2;
+		Bps = Header->Bps * 8;  // Pixels in a row of one plane
+		if (Bps < Image->Width) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			ilCloseImage(Image);
+			return NULL;
+		}
 		Image->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
 		Image->Pal.PalSize = 16 * 3;
 		Image->Pal.PalType = IL_PAL_RGB24;
@@ -449,7 +484,7 @@ ILimage *iUncompressDcxSmall(DCXHEAD *Header)
 						HeadByte &= 0x3F;
 						if (iread(&Colour, 1, 1) != 1)
 							goto file_read_error;
-						for (i = 0; i < HeadByte; i++) {
+						for (i = 0; i < HeadByte && x < Bps; i++) {
 							k = 128;
 							for (j = 0; j < 8; j++) {
 								ScanLine[x++] = !!(Colour & k);
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 5c49b9e..c9751e6 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1401,7 +1401,7 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 		return IL_FALSE;
 	CorrectPreMult();
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 363ee15..cd8b97c 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -329,6 +329,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			iCurImage->Pal.PalSize = 0;
 			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
-- 
2.43.0


From 9f6f109ef5cff0e9c377299d902d910e310cfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 36/72] fix: icon loading checks its headers, allocations and
 PNG icons

---
 DevIL/src-IL/src/il_icon.cpp | 103 ++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 33 deletions(-)

diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..df4466f 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -83,6 +83,10 @@ ILboolean iLoadIconInternal()
 
 	if (ieof())
 		goto file_read_error;
+	if (IconDir.Count <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
 	IconImages = (ICOIMAGE*)ialloc(sizeof(ICOIMAGE) * IconDir.Count);
@@ -115,7 +119,8 @@ ILboolean iLoadIconInternal()
 
 		// 08-22-2008: Adding test for compressed PNG data
 		igetc(); // Skip the first character...seems to vary.
-		iread(PNGTest, 3, 1);
+		if (iread(PNGTest, 3, 1) != 1)
+			goto file_read_error;
 		if (!strnicmp((char*)PNGTest, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
 		{
 #ifdef IL_NO_PNG
@@ -132,20 +137,29 @@ ILboolean iLoadIconInternal()
 			// Need to go back the 4 bytes that were just read.
 			iseek(DirEntries[i].Offset, IL_SEEK_SET);
 
-			IconImages[i].Head.Size = GetLittleInt();
-			IconImages[i].Head.Width = GetLittleInt();
-			IconImages[i].Head.Height = GetLittleInt();
-			IconImages[i].Head.Planes = GetLittleShort();
-			IconImages[i].Head.BitCount = GetLittleShort();
-			IconImages[i].Head.Compression = GetLittleInt();
-			IconImages[i].Head.SizeImage = GetLittleInt();
-			IconImages[i].Head.XPixPerMeter = GetLittleInt();
-			IconImages[i].Head.YPixPerMeter = GetLittleInt();
-			IconImages[i].Head.ColourUsed = GetLittleInt();
-			IconImages[i].Head.ColourImportant = GetLittleInt();
-
-			if (ieof())
+			if (iread(&IconImages[i].Head, 1, sizeof(INFOHEAD)) != sizeof(INFOHEAD))
+				goto file_read_error;
+			Int(&IconImages[i].Head.Size);
+			Int(&IconImages[i].Head.Width);
+			Int(&IconImages[i].Head.Height);
+			Short(&IconImages[i].Head.Planes);
+			Short(&IconImages[i].Head.BitCount);
+			Int(&IconImages[i].Head.Compression);
+			Int(&IconImages[i].Head.SizeImage);
+			Int(&IconImages[i].Head.XPixPerMeter);
+			Int(&IconImages[i].Head.YPixPerMeter);
+			Int(&IconImages[i].Head.ColourUsed);
+			Int(&IconImages[i].Head.ColourImportant);
+
+			// A size of 0 is what tells the PNG icons apart.
+			if (IconImages[i].Head.Size == 0 ||
+				IconImages[i].Head.Width <= 0 || IconImages[i].Head.Width > 0x4000 ||
+				IconImages[i].Head.Height < 2 || IconImages[i].Head.Height > 0x8000 ||
+				IconImages[i].Head.BitCount <= 0 || IconImages[i].Head.BitCount > 32 ||
+				IconImages[i].Head.ColourUsed < 0 || IconImages[i].Head.ColourUsed > 256) {
+				ilSetError(IL_INVALID_FILE_HEADER);
 				goto file_read_error;
+			}
 
 			if (IconImages[i].Head.BitCount < 8) {
 				if (IconImages[i].Head.ColourUsed == 0) {
@@ -159,7 +173,8 @@ ILboolean iLoadIconInternal()
 							break;
 					}
 				}
-				IconImages[i].Pal = (ILubyte*)ialloc(IconImages[i].Head.ColourUsed * 4);
+				// All of the values that a pixel can have are looked up.
+				IconImages[i].Pal = (ILubyte*)icalloc(256, 4);
 				if (IconImages[i].Pal == NULL)
 					goto file_read_error;  // @TODO: Rename the label.
 				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
@@ -206,10 +221,11 @@ ILboolean iLoadIconInternal()
 			continue;
 
 		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(IconImages[i].Head.Width,
+				// The height of the icons that are not PNG compressed includes the AND mask.
+				IconImages[i].Head.Size == 0 ? IconImages[i].Head.Height : IconImages[i].Head.Height / 2,
+				1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+				goto file_read_error;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			Image = iCurImage;
 			BaseCreated = IL_TRUE;
@@ -219,6 +235,8 @@ ILboolean iLoadIconInternal()
 				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
 			else
 				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
+			if (Image->Next == NULL)
+				goto file_read_error;
 			Image = Image->Next;
 			Image->Format = IL_BGRA;
 		}
@@ -228,6 +246,8 @@ ILboolean iLoadIconInternal()
 
 		w = IconImages[i].Head.Width;
 		PadSize = (4 - ((w*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
+		if (IconImages[i].Head.Size == 0)  // The rows of a PNG are not padded.
+			PadSize = 0;
 
 		ANDPadSize = (4 - ((w + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
 		AndBytes = (w + 7) / 8;
@@ -327,7 +347,10 @@ ILboolean iLoadIconInternal()
 				Image->Data[j] = IconImages[i].Data[k];
 				Image->Data[j+1] = IconImages[i].Data[k+1];
 				Image->Data[j+2] = IconImages[i].Data[k+2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
+				if (IconImages[i].AND == NULL)  // PNG without an alpha channel
+					Image->Data[j+3] = 255;
+				else
+					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
 				l >>= 1;
 
 				++x;
@@ -358,6 +381,11 @@ ILboolean iLoadIconInternal()
 	}
 
 
+	if (!BaseCreated) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto file_read_error;
+	}
+
 	for (i = 0; i < IconDir.Count; i++) {
 		ifree(IconImages[i].Pal);
 		ifree(IconImages[i].Data);
@@ -407,8 +435,10 @@ ILboolean iLoadIconPNG(ICOIMAGE *Icon)
 	init = ico_readpng_init();
 	if (init)
 		return IL_FALSE;
-	if (!ico_readpng_get_image(Icon, GAMMA_CORRECTION))
+	if (!ico_readpng_get_image(Icon, GAMMA_CORRECTION)) {
+		ico_readpng_cleanup();
 		return IL_FALSE;
+	}
 
 	ico_readpng_cleanup();
 	Icon->Head.Size = 0;	// Easiest way to tell that this is a PNG.
@@ -424,8 +454,8 @@ ILboolean iLoadIconPNG(ICOIMAGE *Icon)
 #ifndef IL_NO_PNG
 static void ico_png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != length)
+		png_error(png_ptr, "Read error");
 	return;
 }
 
@@ -499,10 +529,10 @@ ILint ico_readpng_init()
 
 ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp	volatile row_pointers = NULL;
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
-	ILuint		i, channels;
+	ILuint		i;
 	ILenum		format;
 	png_colorp	palette;
 	ILint		num_palette, j, bit_depth;
@@ -516,6 +546,7 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	 * libpng function */
 
 	if (setjmp(png_jmpbuf(ico_png_ptr))) {
+		ifree(row_pointers);
 		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
 		return IL_FALSE;
 	}
@@ -538,6 +569,11 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	png_get_IHDR(ico_png_ptr, ico_info_ptr, (png_uint_32*)&width, (png_uint_32*)&height,
 	             &bit_depth, &ico_color_type, NULL, NULL, NULL);
 
+	if (bit_depth == 16) {	// Icons have 8 bits per channel.
+		bit_depth = 8;
+		png_set_strip_16(ico_png_ptr);
+	}
+
 	if (bit_depth < 8) {	// Expanded earlier for grayscale, now take care of palette and rgb
 		bit_depth = 8;
 		png_set_packing(ico_png_ptr);
@@ -561,7 +597,6 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 
 
 	png_read_update_info(ico_png_ptr, ico_info_ptr);
-	channels = (ILint)png_get_channels(ico_png_ptr, ico_info_ptr);
 	// added 20040224: update ico_color_type so that it has the correct value
 	// in iLoadPngInternal (globals rule...)
 	ico_color_type = png_get_color_type(ico_png_ptr, ico_info_ptr);
@@ -618,18 +653,20 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 		}
 
 // @TODO: We may need to keep track of the size of the palette.
-		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
+		Icon->Pal = (ILubyte*)icalloc(256, chans);
+		if (Icon->Pal == NULL) {
+			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			Icon->Pal[chans*j + 0] = palette[j].blue;
 			Icon->Pal[chans*j + 1] = palette[j].green;
 			Icon->Pal[chans*j + 2] = palette[j].red;
-			if (trans != NULL) {
-				if (j < num_trans)
-					Icon->Pal[chans*j + 3] = trans[j];
-				else
-					Icon->Pal[chans*j + 3] = 255;
-			}
+			if (trans != NULL && j < num_trans)
+				Icon->Pal[chans*j + 3] = trans[j];
+			else
+				Icon->Pal[chans*j + 3] = 255;
 		}
 
 		Icon->AND = NULL;  // Transparency information is obtained from libpng.
-- 
2.43.0


From 45799f4f9286f3ff59d41d9f1502ab963e4e2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 37/72] fix: MDL and WAL loading builds the chains safely

---
 DevIL/src-IL/src/il_mdl.cpp | 44 ++++++++++++------
 DevIL/src-IL/src/il_wal.cpp | 91 ++++++++++++++-----------------------
 2 files changed, 64 insertions(+), 71 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..da2e5b4 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -128,6 +128,7 @@ ILboolean iLoadMdlInternal()
 {
 	ILuint		Id, Version, NumTex, TexOff, TexDataOff, Position, ImageNum;
 	ILubyte		*TempPal;
+	ILimage		*Image;
 	TEX_HEAD	TexHead;
 	ILimage		*BaseImage=NULL;
 	ILboolean	BaseCreated = IL_FALSE;
@@ -162,7 +163,7 @@ ILboolean iLoadMdlInternal()
 
 	for (ImageNum = 0; ImageNum < NumTex; ImageNum++) {
 		if (iread(TexHead.Name, 1, 64) != 64)
-			return IL_FALSE;
+			goto mdl_error;
 		TexHead.Flags = GetLittleUInt();
 		TexHead.Width = GetLittleUInt();
 		TexHead.Height = GetLittleUInt();
@@ -171,40 +172,48 @@ ILboolean iLoadMdlInternal()
 
 		if (TexHead.Offset == 0) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
+			goto mdl_error;
 		}
 
+		TempPal	= (ILubyte*)ialloc(768);
+		if (TempPal == NULL)
+			goto mdl_error;
+
 		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
+				ifree(TempPal);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			BaseCreated = IL_TRUE;
 			BaseImage = iCurImage;
 			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
-			iCurImage = iCurImage->Next;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Type = IL_UNSIGNED_BYTE;
+			Image = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			if (Image == NULL) {
+				ifree(TempPal);
+				goto mdl_error;
+			}
+			Image->Format = IL_COLOUR_INDEX;
+			Image->Type = IL_UNSIGNED_BYTE;
+			iCurImage->Next = Image;
+			iCurImage = Image;
 		}
 
-		TempPal	= (ILubyte*)ialloc(768);
-		if (TempPal == NULL) {
-			iCurImage = BaseImage;
-			return IL_FALSE;
-		}
 		iCurImage->Pal.Palette = TempPal;
 		iCurImage->Pal.PalSize = 768;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
 
 		iseek(TexHead.Offset, IL_SEEK_SET);
 		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
-			return IL_FALSE;
+			goto mdl_error;
 		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
-			return IL_FALSE;
+			goto mdl_error;
 
 		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+			if (!ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE))
+				goto mdl_error;
 		}
 
 		iseek(Position, IL_SEEK_SET);
@@ -213,6 +222,11 @@ ILboolean iLoadMdlInternal()
 	iCurImage = BaseImage;
 
 	return ilFixImage();
+
+mdl_error:
+	if (BaseCreated)
+		iCurImage = BaseImage;
+	return IL_FALSE;
 }
 
 #endif//IL_NO_MDL
diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..5505447 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -73,21 +73,35 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 }
 
 
+// Gives an image the palette that all .wal files use.
+static ILboolean iSetWalPal(ILimage *Image)
+{
+	Image->Pal.Palette = (ILubyte*)ialloc(768);
+	if (Image->Pal.Palette == NULL)
+		return IL_FALSE;
+	memcpy(Image->Pal.Palette, ilDefaultQ2Pal, 768);
+	Image->Pal.PalSize = 768;
+	Image->Pal.PalType = IL_PAL_RGB24;
+	Image->Format = IL_COLOUR_INDEX;
+	Image->Origin = IL_ORIGIN_UPPER_LEFT;
+
+	return IL_TRUE;
+}
+
+
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
-	ILimage	*Mipmaps[3], *CurImage;
+	ILimage	*Mipmap;
 	ILuint	i, NewW, NewH;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurImage = iCurImage;
-
-
 	// Read header
-	iread(&Header.FileName, 1, 32);
+	if (iread(&Header.FileName, 1, 32) != 32)
+		return IL_FALSE;
 	Header.Width = GetLittleUInt();
 	Header.Height = GetLittleUInt();
 
@@ -101,67 +115,32 @@ ILboolean iLoadWalInternal()
 
 	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
-
-	for (i = 0; i < 3; i++) {
-		Mipmaps[i] = (ILimage*)icalloc(sizeof(ILimage), 1);
-		if (Mipmaps[i] == NULL)
-			goto cleanup_error;
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
-		if (Mipmaps[i]->Pal.Palette == NULL)
-			goto cleanup_error;
-		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
-		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
-	}
+	if (!iSetWalPal(iCurImage))
+		return IL_FALSE;
 
 	NewW = Header.Width;
 	NewH = Header.Height;
+	Mipmap = iCurImage;
+
 	for (i = 0; i < 3; i++) {
-		NewW /= 2;
-		NewH /= 2;
-		iCurImage = Mipmaps[i];
-		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-			goto cleanup_error;
-		// Don't set until now so ilTexImage won't get rid of the palette.
-		Mipmaps[i]->Pal.PalSize = 768;
-		Mipmaps[i]->Origin = IL_ORIGIN_UPPER_LEFT;
+		NewW = NewW > 1 ? NewW / 2 : 1;
+		NewH = NewH > 1 ? NewH / 2 : 1;
+		Mipmap->Mipmaps = ilNewImage(NewW, NewH, 1, 1, 1);
+		if (Mipmap->Mipmaps == NULL)
+			return IL_FALSE;
+		Mipmap = Mipmap->Mipmaps;
+		if (!iSetWalPal(Mipmap))
+			return IL_FALSE;
 	}
 
-	iCurImage = CurImage;
-	ilCloseImage(iCurImage->Mipmaps);
-	iCurImage->Mipmaps = Mipmaps[0];
-	Mipmaps[0]->Mipmaps = Mipmaps[1];
-	Mipmaps[1]->Mipmaps = Mipmaps[2];
-
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
-		ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL)
-		goto cleanup_error;
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	memcpy(iCurImage->Pal.Palette, ilDefaultQ2Pal, 768);
-
-	iseek(Header.Offsets[0], IL_SEEK_SET);
-	if (iread(iCurImage->Data, Header.Width * Header.Height, 1) != 1)
-		goto cleanup_error;
-
-	for (i = 0; i < 3; i++) {
-		iseek(Header.Offsets[i+1], IL_SEEK_SET);
-		if (iread(Mipmaps[i]->Data, Mipmaps[i]->Width * Mipmaps[i]->Height, 1) != 1)
-			goto cleanup_error;
+	for (i = 0, Mipmap = iCurImage; i < 4; i++, Mipmap = Mipmap->Mipmaps) {
+		iseek(Header.Offsets[i], IL_SEEK_SET);
+		if (iread(Mipmap->Data, Mipmap->Width * Mipmap->Height, 1) != 1)
+			return IL_FALSE;
 	}
 
 	// Fixes all images, even mipmaps.
 	return ilFixImage();
-
-cleanup_error:
-	for (i = 0; i < 3; i++) {
-		ilCloseImage(Mipmaps[i]);
-	}
-	return IL_FALSE;
 }
 
 
-- 
2.43.0


From a9d5053609dd172a0bd0fd411fcdb14b4ce4dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 38/72] fix: XPM and IFF loading checks sizes and missing data

---
 DevIL/src-IL/src/il_iff.cpp | 50 ++++++++++++++++++++++++++-----------
 DevIL/src-IL/src/il_xpm.cpp | 43 +++++++++++++++++++++++--------
 2 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/DevIL/src-IL/src/il_iff.cpp b/DevIL/src-IL/src/il_iff.cpp
index c7ade04..84084ef 100755
--- a/DevIL/src-IL/src/il_iff.cpp
+++ b/DevIL/src-IL/src/il_iff.cpp
@@ -152,7 +152,11 @@ ILboolean iLoadIffInternal(void)
 	while (1) {
 
 		chunkInfo = iff_begin_read_chunk();
-		
+		if (chunkInfo.tag == 0) {  // There are no more chunks.
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+
 		// -- Right now, the only info we need about the image is in TBHD
 		// -- so search this level until we find it.
 		if( chunkInfo.tag == IFF_TAG_TBHD ) {
@@ -200,6 +204,10 @@ ILboolean iLoadIffInternal(void)
 		ILuint tileZ;
 	
 		chunkInfo = iff_begin_read_chunk();
+		if (chunkInfo.tag == 0) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		/*
 		 * OK, we have a FOR4 of type TBMP, (embedded FOR4)
@@ -225,10 +233,9 @@ ILboolean iLoadIffInternal(void)
 
 		// Read tiles
 		while ( (tileImage < tiles) || (tileZ < tiles)) {
-			char	 *tileData;
+			char	 *tileData = NULL;
 			ILushort x1, x2, y1, y2, tile_width, tile_height;
 			ILuint remainingDataSize;
-			ILushort	tile_area;
 			ILuint	tileCompressed;
 
 			chunkInfo = iff_begin_read_chunk();
@@ -239,11 +246,15 @@ ILboolean iLoadIffInternal(void)
 			x1 = GetBigUShort();	y1 = GetBigUShort();
 			x2 = GetBigUShort();	y2 = GetBigUShort();
 
+			if (chunkInfo.size < 4*sizeof(ILushort) || (chunkInfo.tag == IFF_TAG_RGBA &&
+				(x2 < x1 || y2 < y1 || x2 >= width || y2 >= height))) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+
 			remainingDataSize = chunkInfo.size - 4*sizeof(ILushort);
 			tile_width = x2 - x1 + 1;
 			tile_height = y2 - y1 + 1;
-			tile_area = tile_width * tile_height;
-
 			if ((ILint)remainingDataSize >= (tile_width * tile_height * bpp))
 				tileCompressed = 0;
 			else
@@ -309,6 +320,8 @@ iff_chunk iff_begin_read_chunk()
 	chunkStack[chunkDepth].start = itell();
 	chunkStack[chunkDepth].tag = GetBigInt();
 	chunkStack[chunkDepth].size = GetBigInt();
+	if (chunkStack[chunkDepth].size > 0x7FFFFFFF)  // Would lead to somewhere in front of the chunk.
+		chunkStack[chunkDepth].tag = 0;
     
 	if (chunkStack[chunkDepth].tag == IFF_TAG_FOR4) {
 		// -- We have a form, so read the form type tag as well. 
@@ -365,7 +378,7 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 	char	*data = NULL;
 	char	*iniPixel;
 	char	*finPixel;
-	int		i, j;
+	int		i;
 	int		tam = width* height * depth * sizeof(char);
 
 	data = (char*)ialloc(tam);
@@ -379,13 +392,15 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 
 	iniPixel = data;
 	for (i = 0; i < tam / depth; i++) {
-		finPixel = iniPixel + depth;
-		for (j = 0; j < (depth /2); j++) {
+		char *first = iniPixel;
+		finPixel = iniPixel + depth - 1;
+		while (first < finPixel) {
 			char aux;
-			aux = *iniPixel; 
-			*(finPixel--) = *iniPixel;
-			*(iniPixel++) = aux;
+			aux = *finPixel;
+			*(finPixel--) = *first;
+			*(first++) = aux;
 		}
+		iniPixel += depth;
 	}
 	return data;
 }
@@ -395,8 +410,8 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 							  char *compressedData, ILuint compressedDataSize)
 {
 
-	char	*channels[4];
-	char	*data;
+	char	*channels[4] = { NULL, NULL, NULL, NULL };
+	char	*data = NULL;
 	int		i, k, row, column;
 	ILuint	compressedStart = 0;
 
@@ -410,13 +425,13 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 		channels[i] = iff_decompress_rle(width * height, compressedData, 
 				      compressedDataSize, &compressedStart);
 		if (channels[i] == NULL)
-			return NULL;
+			goto done;
 	}
 
     // Build all the channels from the decompression into an RGBA array.
 	data = (char*)ialloc(width * height * depth * sizeof(char));
 	if (data == NULL)
-		return NULL;
+		goto done;
 
 	for (row = 0; row < height; row++)
 		for (column = 0; column < width; column++)
@@ -424,6 +439,7 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 				data[depth*(row*width + column) + k] =
 					channels[k][row*width + column];
 	
+done:
 	ifree(channels[0]); ifree(channels[1]);
 	ifree(channels[2]); ifree(channels[3]);
 
@@ -454,6 +470,8 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 		if ((byteCount + count) > numBytes) break;
 		if (nextChar & 0x80) {
 			// Duplication run
+			if (*compressedStartIndex >= compressedDataSize)
+				break;
 			nextChar = compressedData[*compressedStartIndex];
 			(*compressedStartIndex)++;
 			// assert ((byteCount + count) <= numBytes);
@@ -463,6 +481,8 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 			}
 		} else {
 			// Verbatim run
+			if (compressedDataSize - *compressedStartIndex < count)
+				break;
 			for (i = 0; i < count; i++) {
 				data[byteCount] = compressedData[*compressedStartIndex];
 				(*compressedStartIndex)++;
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..432963b 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -78,7 +78,8 @@ ILboolean iIsValidXpm(void)
 	ILubyte	Buffer[10];
 	ILuint	Pos = itell();
 
-	XpmGetsInternal(Buffer, 10);
+	if (XpmGetsInternal(Buffer, 10) == IL_EOF)
+		Buffer[0] = 0;
 	iseek(Pos, IL_SEEK_SET);  // Restore position
 
 	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */")))
@@ -195,7 +196,7 @@ void XpmDestroyHashTable(XPMHASHENTRY **Table)
 }
 
 
-void XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
+ILboolean XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
 {
 	XPMHASHENTRY* NewEntry;
 	ILuint Index;
@@ -207,7 +208,10 @@ void XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel
 		memcpy(NewEntry->ColourName, Name, Len);
 		memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
 		Table[Index] = NewEntry;
+		return IL_TRUE;
 	}
+
+	return IL_FALSE;
 }
 
 
@@ -223,6 +227,8 @@ void XpmGetEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Co
 
 	if (Entry != NULL)
 		memcpy(Colour, Entry->ColourValue, sizeof(XpmPixel));
+	else  // Not one of the colours of the file
+		memset(Colour, 0, sizeof(XpmPixel));
 }
 
 #endif //XPM_DONT_USE_HASHTABLE
@@ -255,6 +261,9 @@ ILint XpmGetsInternal(ILubyte *Buffer, ILint MaxLen)
 		Buffer[i++] = (ILubyte)Current;
 	}
 
+	if (Current == IL_EOF && i == 0)  // Nothing was left to read.
+		return IL_EOF;
+
 	Buffer[i++] = 0;
 
 	return i;
@@ -318,6 +327,8 @@ ILint XpmGetInt(ILubyte *Buffer, ILint Size, ILint *Position)
 	for (i = *Position, j = 0; i < Size; i++) {
 		if (isdigit(Buffer[i])) {
 			IsInNum = IL_TRUE;
+			if (j >= (ILint)sizeof(Buff) - 1)
+				return -1;
 			Buff[j++] = Buffer[i];
 		}
 		else {
@@ -438,7 +449,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 #endif
 {
 	ILint		i = 0, j, strLen = 0;
-	ILubyte		ColBuff[3];
+	ILubyte		ColBuff[3] = { 0, 0, 0 };
 	char		Buff[1024];
 
 	XpmPixel	Colour;
@@ -454,6 +465,8 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 		return IL_FALSE;
 
 	// Get the characters.
+	if (i + Len > Size)
+		return IL_FALSE;
 	for (j = 0; j < Len; ++j) {
 		Name[j] = Buffer[i++];
 	}
@@ -469,7 +482,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 #ifndef XPM_DONT_USE_HASHTABLE
 		memset(Colour, 0, sizeof(Colour));
 		Colour[3] = 255;
-		XpmInsertEntry(Table, Name, Len, Colour);
+		return XpmInsertEntry(Table, Name, Len, Colour);
 #else
 		memset(Colours[Name[0]], 0, sizeof(Colour));
 		Colours[Name[0]][3] = 255;
@@ -517,7 +530,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 	}
 	else {
 		for (j = 0; i < Size; i++) {
-			if (!isalnum(Buffer[i]))
+			if (!isalnum(Buffer[i]) || j >= (ILint)sizeof(Buff) - 1)
 				break;
 			Buff[j++] = Buffer[i];
 		}
@@ -533,7 +546,7 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 
 
 #ifndef XPM_DONT_USE_HASHTABLE
-	XpmInsertEntry(Table, Name, Len, Colour);
+	return XpmInsertEntry(Table, Name, Len, Colour);
 #else
 	memcpy(Colours[Name[0]], Colour, sizeof(Colour));
 #endif
@@ -557,7 +570,7 @@ ILboolean iLoadXpmInternal()
 #endif
 
 	Size = XpmGetsInternal(Buffer, BUFFER_SIZE);
-	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */"))) {
+	if (Size == IL_EOF || strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */"))) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -580,8 +593,8 @@ ILboolean iLoadXpmInternal()
 	}
 #endif
 
-	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL
-		|| Width*CharsPerPixel > BUFFER_SIZE) {
+	if (CharsPerPixel < 1 || CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL
+		|| Width < 1 || Width > BUFFER_SIZE / CharsPerPixel || Height < 1 || NumColours < 1) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
@@ -605,6 +618,7 @@ ILboolean iLoadXpmInternal()
 		if (!XpmGetColour(Buffer, Size, CharsPerPixel, Colours)) {
 			ifree(Colours);
 #endif
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
 	}
@@ -622,6 +636,15 @@ ILboolean iLoadXpmInternal()
 
 	for (y = 0; y < Height; y++) {
 		Size = XpmGets(Buffer, BUFFER_SIZE);
+		if (Size < Width * CharsPerPixel + 2) {  // With the quote and the terminator
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+#ifndef XPM_DONT_USE_HASHTABLE
+			XpmDestroyHashTable(HashTable);
+#else
+			ifree(Colours);
+#endif
+			return IL_FALSE;
+		}
 		for (x = 0; x < Width; x++) {
 #ifndef XPM_DONT_USE_HASHTABLE
 			XpmGetEntry(HashTable, &Buffer[1 + x*CharsPerPixel], CharsPerPixel, &Data[(x << 2)]);
@@ -646,7 +669,7 @@ ILboolean iLoadXpmInternal()
 #else
 	ifree(Colours);
 #endif
-	return IL_TRUE;
+	return ilFixImage();
 
 #undef BUFFER_SIZE
 }
-- 
2.43.0


From 6c477226f12b03977d67a1e3fab3e9b6a7125ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 39/72] fix: ILBM, PIC and Doom loading stays within bounds and
 reports missing data

---
 DevIL/src-IL/include/il_pic.h |  2 +-
 DevIL/src-IL/src/il_doom.cpp  | 12 +++++------
 DevIL/src-IL/src/il_ilbm.cpp  | 40 ++++++++++++++++++++++++++++-------
 DevIL/src-IL/src/il_pic.cpp   | 30 ++++++++++++++------------
 4 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/DevIL/src-IL/include/il_pic.h b/DevIL/src-IL/include/il_pic.h
index eccec72..852cf4b 100644
--- a/DevIL/src-IL/include/il_pic.h
+++ b/DevIL/src-IL/include/il_pic.h
@@ -68,7 +68,7 @@ typedef struct CHANNEL
 ILboolean iIsValidPic(void);
 ILboolean iCheckPic(PIC_HEAD *Header);
 ILboolean iLoadPicInternal(void);
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
+ILboolean readScanlines(ILubyte *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
 ILuint    readScanline(ILubyte *scan, ILint width, CHANNEL *channel,  ILint bytes);
 ILboolean channelReadRaw(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
 ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
diff --git a/DevIL/src-IL/src/il_doom.cpp b/DevIL/src-IL/src/il_doom.cpp
index c618978..b7df6f0 100644
--- a/DevIL/src-IL/src/il_doom.cpp
+++ b/DevIL/src-IL/src/il_doom.cpp
@@ -144,9 +144,9 @@ ILboolean iLoadDoomInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
@@ -249,9 +249,9 @@ ILboolean iLoadDoomFlatInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index cdbf73f..fc9119a 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -300,6 +300,7 @@ static ILboolean load_ilbm(void)
     }
 
     nbcolors = 0;
+    memset( colormap, 0, sizeof( colormap ) );
 
     memset( &bmhd, 0, sizeof( BMHD ) );
     flagHAM = 0;
@@ -344,6 +345,12 @@ static ILboolean load_ilbm(void)
 
         if ( !memcmp( id, "CMAP", 4 ) ) /* palette ( Color Map ) */
         {
+            if ( size > sizeof( colormap ) )
+            {
+                ilSetError( IL_ILLEGAL_FILE_VALUE );
+                error=(char*)"the colour map is too big";
+                goto done;
+            }
             if ( !SDL_RWread( src, &colormap, size, 1 ) )
             {
                 error=(char*)"error reading CMAP chunk";
@@ -380,6 +387,16 @@ static ILboolean load_ilbm(void)
         }
     }
 
+    /* Without a valid header, there is nothing to go by */
+    if ( bmhd.w == 0 || bmhd.h == 0 || bmhd.planes == 0 ||
+         ( bmhd.planes > 8 && ( bmhd.planes != 24 || flagHAM || pbm ) ) ||
+         ( flagHAM && bmhd.planes < 3 ) )
+    {
+        ilSetError( IL_ILLEGAL_FILE_VALUE );
+        error=(char*)"bad BMHD chunk";
+        goto done;
+    }
+
     /* compute some usefull values, based on the bitmap header */
 
     width = ( bmhd.w + 15 ) & 0xFFFFFFF0;  /* Width in pixels modulo 16 */
@@ -410,10 +427,13 @@ static ILboolean load_ilbm(void)
     if( bmhd.planes==24 || flagHAM==1 ) {
         format = IL_BGR;
     } else {
-        format = IL_COLOUR_INDEX;
+        format = ( nbcolors>0 ) ? IL_COLOUR_INDEX : IL_LUMINANCE;
     }
-    if( !ilTexImage( width, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    if( !ilTexImage( width, bmhd.h, 1, (format==IL_BGR)?3:1, format, IL_UNSIGNED_BYTE, NULL ) )
+    {
+        error=(char*)"could not create the image";
         goto done;
+    }
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 #if 0 /*  No transparent colour support in DevIL? (TODO: confirm) */
@@ -424,9 +444,9 @@ static ILboolean load_ilbm(void)
     /* Update palette informations */
 
     /* There is no palette in 24 bits ILBM file */
-    if ( nbcolors>0 && flagHAM==0 )
+    if ( nbcolors>0 && format==IL_COLOUR_INDEX )
     {
-        int nbrcolorsfinal = 1 << nbplanes;
+        int nbrcolorsfinal = 1 << ( pbm ? bmhd.planes : nbplanes );
         ptr = &colormap[0];
 
         for ( i=0; i<nbcolors; i++ )
@@ -465,8 +485,12 @@ static ILboolean load_ilbm(void)
             scratch_pal[i].b = scratch_pal[i%nbcolors].b;
         }
 
-        if ( !pbm )
-            ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+        ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+        if ( iCurImage->Pal.Palette == NULL )
+        {
+            error=(char*)"could not set the palette";
+            goto done;
+        }
 
     }
 
@@ -537,7 +561,7 @@ static ILboolean load_ilbm(void)
         /* One line has been read, store it ! */
 
         ptr = ilGetData();
-        if ( nbplanes==24 || flagHAM==1 )
+        if ( format==IL_BGR )
             ptr += h * width * 3;
         else
             ptr += h * width;
@@ -548,7 +572,7 @@ static ILboolean load_ilbm(void)
         }
         else        /* We have to un-interlace the bits ! */
         {
-            if ( nbplanes!=24 && flagHAM==0 )
+            if ( format!=IL_BGR )
             {
                 size = ( width + 7 ) / 8;
 
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index ea0ad58..46f554a 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -68,6 +68,7 @@ ILboolean ilIsValidPicL(const void *Lump, ILuint Size)
 // Internal function used to get the .pic header from the current file.
 ILboolean iGetPicHead(PIC_HEAD *Header)
 {
+	imemclear(Header, sizeof(PIC_HEAD));  // In case that not all of it can be read.
 	Header->Magic = GetBigInt();
 	Header->Version = GetBigFloat();
 	iread(Header->Comment, 1, 80);
@@ -157,7 +158,7 @@ ILboolean ilLoadPicL(const void *Lump, ILuint Size)
 ILboolean iLoadPicInternal()
 {
 	ILuint		Alpha = IL_FALSE;
-	ILubyte		Chained;
+	ILint		Chained, Chan;
 	CHANNEL		*Channel = NULL, *Channels = NULL, *Prev;
 	PIC_HEAD	Header;
 	ILboolean	Read;
@@ -199,8 +200,9 @@ ILboolean iLoadPicInternal()
 		Chained = igetc();
 		Channels->Size = igetc();
 		Channels->Type = igetc();
-		Channels->Chan = igetc();
-		if (ieof()) {
+		Chan = igetc();
+		Channels->Chan = (ILubyte)Chan;
+		if (Chained == IL_EOF || Chan == IL_EOF) {
 			Read = IL_FALSE;
 			goto finish;
 		}
@@ -218,14 +220,16 @@ ILboolean iLoadPicInternal()
 		}
 	}
 	else {  // No alpha channel
-		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 			Read = IL_FALSE;
 			goto finish;  // Have to destroy Channels first.
 		}
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	Read = readScanlines((ILuint*)iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
+	// There may not be all of the channels.
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);
+	Read = readScanlines(iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
 
 finish:
 	// Destroy channels
@@ -242,17 +246,15 @@ finish:
 }
 
 
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
+ILboolean readScanlines(ILubyte *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
 {
 	ILint	i;
-	ILuint	*scan;
+	ILubyte	*scan;
 
-	(void)alpha;
-	
 	for (i = height - 1; i >= 0; i--) {
-		scan = image + i * width;
+		scan = image + i * width * (alpha ? 4 : 3);
 
-		if (!readScanline((ILubyte *)scan, width, channel, alpha ? 4 : 3)) {
+		if (!readScanline(scan, width, channel, alpha ? 4 : 3)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
@@ -337,8 +339,8 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		count = igetc();
 		if (count == IL_EOF)
 			return IL_FALSE;
-		if (count > width)
-			count = width;
+		if (count > i)
+			count = i;
 		i -= count;
 		
 		if (ieof())
@@ -350,7 +352,7 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		
 		for (k = 0; k < count; k++, scan += bytes) {
 			for(j = 0; j < noCol; j++)
-				scan[off[j] + k] = col[j];
+				scan[off[j]] = col[j];
 		}
 	}
 	return IL_TRUE;
-- 
2.43.0


From e7f2f2fcffeadc6bc38d66dc759dec712b7ddbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 40/72] fix: cube map loading works on the image that was
 selected and releases its data on every failure

---
 DevIL/src-IL/src/il_dds.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index c9751e6..9c04973 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -343,8 +343,14 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		if (Head.ddsCaps2 & CubemapDirections[i]) {
 			if (i != 0) {
 				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
-				if (Image->Faces == NULL)
+				if (Image->Faces == NULL) {
+					if (CompData) {
+						ifree(CompData);
+						CompData = NULL;
+					}
+					iCurImage = startImage;
 					return IL_FALSE;
+				}
 
 				Image = Image->Faces;
 
@@ -360,19 +366,21 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					Image->Bpp = Channels;
 				}
 
-				ilBindImage(ilGetCurName()); // Set to parent image first.
-				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				ilActiveFace(i);
+				//@TODO: now Image == iCurImage...globals SUCK, fix this!!!
+				iCurImage = Image;
 			}
 
-			if (!ReadData(CompFormat, IsDXT10))
+			if (!ReadData(CompFormat, IsDXT10)) {
+				iCurImage = startImage;
 				return IL_FALSE;
+			}
 
 			if (!AllocImage(CompFormat, IsDXT10)) {
 				if (CompData) {
 					ifree(CompData);
 					CompData = NULL;
 				}
+				iCurImage = startImage;
 				return IL_FALSE;
 			}
 
@@ -383,6 +391,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					ifree(CompData);
 					CompData = NULL;
 				}
+				iCurImage = startImage;
 				return IL_FALSE;
 			}
 
@@ -391,6 +400,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					ifree(CompData);
 					CompData = NULL;
 				}
+				iCurImage = startImage;
 				return IL_FALSE;
 			}
 		}
-- 
2.43.0


From ad293e90e3aed7f7068e16d57fe3210bb1f48330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 41/72] fix: ilLoadDoomFlat loads flats

---
 DevIL/src-IL/src/il_doom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_doom.cpp b/DevIL/src-IL/src/il_doom.cpp
index b7df6f0..d174f15 100644
--- a/DevIL/src-IL/src/il_doom.cpp
+++ b/DevIL/src-IL/src/il_doom.cpp
@@ -185,7 +185,7 @@ ILboolean ilLoadDoomFlat(ILconst_string FileName)
 		return bFlat;
 	}
 
-	bFlat = ilLoadDoomF(FlatFile);
+	bFlat = ilLoadDoomFlatF(FlatFile);
 	icloser(FlatFile);
 
 	return bFlat;
-- 
2.43.0


From 4ec5f243f5b9df0f0d3d63362044ff6c6f6780c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 42/72] fix: pixels skipped by run-length BMP data are cleared,
 16-bit Targa data has a consistent format

---
 DevIL/src-IL/src/il_bmp.cpp   | 2 ++
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 7103fed..27fa823 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -560,6 +560,7 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);  // Pixels can be skipped.
 
 	// A height of 0 is illegal
 	if (Header->biHeight == 0)
@@ -641,6 +642,7 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);  // Pixels can be skipped.
 
 	// A height of 0 is illegal
 	if (Header->biHeight == 0) {
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 86824eb..54954b0 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -369,7 +369,8 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 			iCurImage->Format = IL_BGRA;
 			iCurImage->Type = IL_UNSIGNED_SHORT_1_5_5_5_REV;*/
 			
-			iCurImage->Format = IL_BGR;
+			// Two bytes per pixel, until it is expanded below.
+			iCurImage->Format = IL_LUMINANCE_ALPHA;
 			
 			break;
 		case 3:
-- 
2.43.0


From 71c13a41d7b8cc45beb7cfa8aacc9bcf61eaf1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 43/72] fix: GIF and icon files that end early leave an error

---
 DevIL/src-IL/src/il_gif.cpp  | 4 +++-
 DevIL/src-IL/src/il_icon.cpp | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index 45eb50e..4fed315 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -424,8 +424,10 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 				Gfx->Delay = GetLittleUShort();
 				Gfx->Transparent = igetc();
 				Gfx->Terminator = igetc();
-				if (ieof())
+				if (ieof()) {
+					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
+				}
 				Gfx->Used = IL_FALSE;
 				break;
 			/*case 0xFE:
diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index df4466f..d58ce08 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -81,8 +81,10 @@ ILboolean iLoadIconInternal()
 	IconDir.Type = GetLittleShort();
 	IconDir.Count = GetLittleShort();
 
-	if (ieof())
+	if (ieof()) {
+		ilSetError(IL_FILE_READ_ERROR);
 		goto file_read_error;
+	}
 	if (IconDir.Count <= 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -110,8 +112,10 @@ ILboolean iLoadIconInternal()
 		DirEntries[i].SizeOfData = GetLittleUInt();
 		DirEntries[i].Offset = GetLittleUInt();
 
-		if (ieof())
+		if (ieof()) {
+			ilSetError(IL_FILE_READ_ERROR);
 			goto file_read_error;
+		}
 	}
 
 	for (i = 0; i < IconDir.Count; i++) {
-- 
2.43.0


From 56bb97e37992b2515ce67e95797902260cdeed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 44/72] fix: ilLoad, ilLoadF and ilLoadL load IL_DCX and
 IL_SCITEX

Before: typed loads of DCX and Scitex files were refused by every entry point, and ilLoadF/ilLoadL failed without an error when the type was not recognised.
---
 DevIL/src-IL/src/il_io.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index f2148e0..5548211 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1090,6 +1090,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			bRet = ilLoadDcx(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			bRet = ilLoadDicom(FileName);
@@ -1243,6 +1249,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			bRet = ilLoadScitex(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			bRet = ilLoadSgi(FileName);
@@ -1340,6 +1352,7 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1384,6 +1397,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadCutF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxF(File);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomF(File);
@@ -1526,6 +1544,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadRotF(File);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexF(File);
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			return ilLoadSgiF(File);
@@ -1605,6 +1628,7 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1647,6 +1671,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadCutL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomL(Lump, Size);
@@ -1789,6 +1818,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadRotL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			return ilLoadSgiL(Lump, Size);
-- 
2.43.0


From c1c75a0bfcbec93891abb9e14de7c9975d66e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 45/72] fix: A TIFF tag whose data is not in the file is
 reported

Before: a TIFF cut before its colour map loaded as greyscale with no error queued.
---
 DevIL/src-IL/src/il_tiff.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 2263815..e6e2b88 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -172,6 +172,17 @@ ILboolean ilLoadTiffL(const void *Lump, ILuint Size)
 
 /*----------------------------------------------------------------------------*/
 
+// Set when libtiff leaves out a tag (a colour map, say) because it could not read
+//  the tag's data from the file.
+static ILboolean TiffTagLost;
+
+static void lostTagHandler(const char* mod, const char* fmt, va_list ap)
+{
+	mod; ap;
+	if (fmt != NULL && (!strncmp(fmt, "IO error", 8) || !strncmp(fmt, "Out of memory", 13)))
+		TiffTagLost = IL_TRUE;
+}
+
 void warningHandler(const char* mod, const char* fmt, va_list ap)
 {
 	mod; fmt; ap;
@@ -281,7 +292,8 @@ ILboolean iLoadTiffInternal()
 		return IL_FALSE;
 	}
 
-	TIFFSetWarningHandler (NULL);
+	TiffTagLost = IL_FALSE;
+	TIFFSetWarningHandler (lostTagHandler);
 	TIFFSetErrorHandler   (NULL);
 
 	//for debugging only
@@ -731,6 +743,9 @@ ILboolean iLoadTiffInternal()
 
 	TIFFClose(tif);
 
+	if (TiffTagLost)
+		ilSetError(IL_LIB_TIFF_ERROR);
+
 	return ilFixImage();
 }
 
-- 
2.43.0


From 3a196711d62f98e53a8a228601771f42757cece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 46/72] fix: iDefaultEof queues an error when it cannot seek

Before: a failed seek while looking for the end of the file was taken for the end of the file.
---
 DevIL/src-IL/src/il_files.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index f82d83a..01f36d9 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -168,11 +168,15 @@ ILboolean ILAPIENTRY iDefaultEof(ILHANDLE Handle)
 
 	// Find out the filesize for checking for the end of file
 	OrigPos = ftell((FILE*)Handle);
-	if (OrigPos < 0 || fseek((FILE*)Handle, 0, SEEK_END) != 0)
+	if (OrigPos < 0 || fseek((FILE*)Handle, 0, SEEK_END) != 0) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_TRUE;
+	}
 	FileSize = ftell((FILE*)Handle);
-	if (fseek((FILE*)Handle, OrigPos, SEEK_SET) != 0)
+	if (fseek((FILE*)Handle, OrigPos, SEEK_SET) != 0) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_TRUE;
+	}
 
 	return (OrigPos >= FileSize) ? IL_TRUE : IL_FALSE;
 }
-- 
2.43.0


From 76c780d3f2a2d298c9cbd86de9ed1fab669efbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 47/72] fix: Sun colour map lengths are checked

Before: a misread length left a palette that is no whole number of entries; converting it read past its end.
---
 DevIL/src-IL/src/il_sun.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index d00527b..8686519 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -274,6 +274,10 @@ ILboolean iLoadSunInternal(void)
 					return IL_FALSE;
 			}
 			else {  // Colour-mapped image
+				if (Header.ColorMapLength > 768 || Header.ColorMapLength % 3 != 0) {
+					ilSetError(IL_INVALID_FILE_HEADER);
+					return IL_FALSE;
+				}
 				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
-- 
2.43.0


From 3c1349872b0c33eb34a0d66eaaaccdd694f215da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 48/72] fix: PCX line lengths and plane counts are checked
 before they are used

Before: 16-colour lines shorter than the image were read past the end of the line buffer; a bad plane count left an image without a format.
---
 DevIL/src-IL/src/il_pcx.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index cd8b97c..ff748d1 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -76,7 +76,8 @@ ILboolean iGetPcxHead(PCXHEAD *Head)
 	Head->Ymax = GetLittleUShort();
 	Head->HDpi = GetLittleUShort();
 	Head->VDpi = GetLittleUShort();
-	iread(Head->ColMap, 1, 48);
+	if (iread(Head->ColMap, 1, 48) != 48)
+		return IL_FALSE;
 	Head->Reserved = igetc();
 	Head->NumPlanes = igetc();
 	Head->Bps = GetLittleUShort();
@@ -132,6 +133,10 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 		}
 	}
 
+	// The four planes of a 16 colour line must be long enough to hold the line.
+	if (Header->Bpp == 1 && Header->NumPlanes == 4 && Header->Bps * 8 < Header->Xmax - Header->Xmin + 1)
+		return IL_FALSE;
+
 	/* for (i = 0; i < 54; i++) { useless check
 		if (Header->Filler[i] != 0)
 			return IL_FALSE;
@@ -229,6 +234,11 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 		return iUncompressSmall(Header);
 	}
 
+	if (Header->NumPlanes != 1 && Header->NumPlanes != 3 && Header->NumPlanes != 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -359,6 +369,11 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 	ILuint	i = 0, j, k, c, d, x, y, Bps;
 	ILubyte	HeadByte, Colour, Data = 0, *ScanLine;
 
+	if (Header->NumPlanes != 1 && Header->NumPlanes != 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-- 
2.43.0


From b11c605aa6ce6c0f93dfe73f0677a6a27b46f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 49/72] fix: A TGA cut right behind its 16 bit palette queues
 an error

Before: the load failed without an error.
---
 DevIL/src-IL/src/il_targa.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 54954b0..08a2eb4 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -304,8 +304,10 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
 		{
 			Pixel = GetBigUShort();
-			if (ieof())
+			if (ieof()) {
+				ilSetError(IL_FILE_READ_ERROR);
 				return IL_FALSE;
+			}
 			iCurImage->Pal.Palette[i + 3] = (Pixel & 0x8000) >> 12;
 			iCurImage->Pal.Palette[i] = (Pixel & 0xFC00) >> 7;
 			iCurImage->Pal.Palette[i + 1] = (Pixel & 0x03E0) >> 2;
-- 
2.43.0


From bde545b73c502584a8cf268512c5bc72792c228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 50/72] fix: The FITS header is cleared and its failures are
 reported

Before: uninitialised header, unchecked seeks, failures without an error, the probe moved the file position.
---
 DevIL/src-IL/src/il_fits.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_fits.cpp b/DevIL/src-IL/src/il_fits.cpp
index cf375ce..b0f3bca 100644
--- a/DevIL/src-IL/src/il_fits.cpp
+++ b/DevIL/src-IL/src/il_fits.cpp
@@ -102,7 +102,7 @@ ILboolean iGetFitsHead(FITSHEAD *Header)
 	ILenum	CardKey;
 
 //@TODO: Use something other than memset?
-	memset(Header, 0, sizeof(Header));  // Clear the header to all 0s first.
+	memset(Header, 0, sizeof(*Header));  // Clear the header to all 0s first.
 
 	do {
 		CardKey = GetCardImage(Header);
@@ -115,11 +115,16 @@ ILboolean iGetFitsHead(FITSHEAD *Header)
 	} while (!ieof());
 
 	// The header should never reach the end of the file.
-	if (ieof())
-		return IL_FALSE;  // Error needed?
+	if (ieof()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	// The header must always be a multiple of 2880, so we skip the padding bytes (spaces).
-	iseek((2880 - (itell() % 2880)) % 2880, IL_SEEK_CUR);
+	if (iseek((2880 - (itell() % 2880)) % 2880, IL_SEEK_CUR)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	switch (Header->BitsPixel)
 	{
@@ -179,12 +184,12 @@ ILboolean iIsValidFits(void)
 	FITSHEAD	Header;
 	ILuint		Pos = itell();
 
-	if (!iGetFitsHead(&Header))
-		return IL_FALSE;
+	ILboolean	IsValid = iGetFitsHead(&Header);
+
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
-	return iCheckFits(&Header);
+	return IsValid && iCheckFits(&Header);
 }
 
 
@@ -315,6 +320,8 @@ ILboolean iLoadFitsInternal(void)
 			}
 
 			// Renormalize to [0..1].
+			if (MaxF <= 0.0f)
+				MaxF = 1.0f;
 			for (i = 0; i < NumPix; i++) {
 				// Change all negative numbers to 0.
 				if (((ILfloat*)iCurImage->Data)[i] < 0.0f)
@@ -331,6 +338,8 @@ ILboolean iLoadFitsInternal(void)
 			}
 
 			// Renormalize to [0..1].
+			if (MaxD <= 0.0)
+				MaxD = 1.0;
 			for (i = 0; i < NumPix; i++) {
 				// Change all negative numbers to 0.
 				if (((ILdouble*)iCurImage->Data)[i] < 0.0f)
@@ -450,14 +459,18 @@ ILboolean GetCardInt(char *Buffer, ILint *Val)
 	ILuint	i;
 	char	ValString[22];
 
-	if (Buffer[7] != '=' && Buffer[8] != '=')
+	if (Buffer[7] != '=' && Buffer[8] != '=') {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 	for (i = 9; i < 30; i++) {
 		if (Buffer[i] != ' ' && Buffer[i] != 0)  // Right-aligned with ' ' or 0, so skip.
 			break;
 	}
-	if (i == 30)  // Did not find the integer in positions 10 - 30.
+	if (i == 30) {  // Did not find the integer in positions 10 - 30.
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
   //@TODO: Safest way to do this?
 	memcpy(ValString, &Buffer[i], 30-i);
-- 
2.43.0


From d3bef9577b05f066a6a6667479b08d94182d9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 51/72] fix: DPX reads and seeks are checked

Before: a cut or failing file gave an image of uninitialised data and success.
---
 DevIL/src-IL/src/il_dpx.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_dpx.cpp b/DevIL/src-IL/src/il_dpx.cpp
index 2baf904..c721742 100644
--- a/DevIL/src-IL/src/il_dpx.cpp
+++ b/DevIL/src-IL/src/il_dpx.cpp
@@ -83,7 +83,10 @@ ILboolean DpxGetFileInfo(DPX_FILE_INFO *FileInfo)
 	if (iread(FileInfo->Copyright, 200, 1) != 1)
 		return IL_FALSE;
 	FileInfo->Key = GetBigUInt();
-	iseek(104, IL_SEEK_CUR);  // Skip reserved section.
+	if (iseek(104, IL_SEEK_CUR)) {  // Skip reserved section.
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -124,10 +127,14 @@ ILboolean DpxGetImageInfo(DPX_IMAGE_INFO *ImageInfo)
 	ImageInfo->Height = GetBigUInt();
 
 	for (i = 0; i < 8; i++) {
-		GetImageElement(&ImageInfo->ImageElement[i]);
+		if (!GetImageElement(&ImageInfo->ImageElement[i]))
+			return IL_FALSE;
 	}
 
-	iseek(52, IL_SEEK_CUR);  // Skip padding bytes.
+	if (iseek(52, IL_SEEK_CUR)) {  // Skip padding bytes.
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -152,7 +159,10 @@ ILboolean DpxGetImageOrient(DPX_IMAGE_ORIENT *ImageOrient)
 	ImageOrient->Border[3] = GetBigUShort();
 	ImageOrient->PixelAspect[0] = GetBigUInt();
 	ImageOrient->PixelAspect[1] = GetBigUInt();
-	iseek(28, IL_SEEK_CUR);  // Skip reserved bytes.
+	if (iseek(28, IL_SEEK_CUR)) {  // Skip reserved bytes.
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -177,6 +187,9 @@ ILboolean iLoadDpxInternal(void)
 		return IL_FALSE;
 	}
 	
+	imemclear(&FileInfo, sizeof(FileInfo));
+	imemclear(&ImageInfo, sizeof(ImageInfo));
+	imemclear(&ImageOrient, sizeof(ImageOrient));
 	if (!DpxGetFileInfo(&FileInfo))
 		return IL_FALSE;
 	if (!DpxGetImageInfo(&ImageInfo))
@@ -184,7 +197,10 @@ ILboolean iLoadDpxInternal(void)
 	if (!DpxGetImageOrient(&ImageOrient))
 		return IL_FALSE;
 
-	iseek(ImageInfo.ImageElement[CurElem].DataOffset, IL_SEEK_SET);
+	if (iseek(ImageInfo.ImageElement[CurElem].DataOffset, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 //@TODO: Deal with different origins!
 
@@ -242,7 +258,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 2);
+							if (iread(Data, 1, 2) != 2)
+								return IL_FALSE;
 							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 						}
@@ -256,7 +273,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 4);
+							if (iread(Data, 1, 4) != 4)
+								return IL_FALSE;
 							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 							Val = (((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4)) << 6;  // Use the next 10 bits.
@@ -274,7 +292,8 @@ ILboolean iLoadDpxInternal(void)
 						NumElements = iCurImage->SizeOfData / 2;
 
 						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 8);
+							if (iread(Data, 1, 8) != 8)
+								return IL_FALSE;
 							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
 							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
 							Val = ((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4);  // Use the next 10 bits.
-- 
2.43.0


From 15744e96cc267a6b7ac708b0ad135acf147621c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 52/72] fix: MP3 picture frames are read with bounds

Before: indexing behind the description buffer, unchecked seeks, the probe moved the file position.
---
 DevIL/src-IL/src/il_mp3.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_mp3.cpp b/DevIL/src-IL/src/il_mp3.cpp
index c7f0458..91e2762 100755
--- a/DevIL/src-IL/src/il_mp3.cpp
+++ b/DevIL/src-IL/src/il_mp3.cpp
@@ -112,13 +112,12 @@ ILboolean iIsValidMp3(void)
 {
 	MP3HEAD		Header;
 	ILuint		Pos = itell();
+	ILboolean	IsValid = iGetMp3Head(&Header);
 
-	if (!iGetMp3Head(&Header))
-		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
-	return iCheckMp3(&Header);
+	return IsValid && iCheckMp3(&Header);
 }
 
 
@@ -165,7 +164,7 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 					break;
 			}
 			// The MimeType must be terminated by 0 in the file by the specs.
-			if (MimeType[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			if (!strcmp((char*)MimeType, "image/jpeg"))
 				Type = MP3_JPG;
@@ -182,12 +181,15 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 				if (Description[i] == 0)
 					break;
 			}
-			if (Description[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			return Type;
 		}
 		else {
-			iseek(FrameSize, IL_SEEK_CUR);
+			if (iseek(FrameSize, IL_SEEK_CUR)) {
+				ilSetError(IL_FILE_READ_ERROR);
+				return MP3_NONE;
+			}
 		}
 
 		//if (!strncmp(MimeType, "
@@ -252,8 +254,10 @@ ILboolean iLoadMp3Internal(void)
 
 	if (!iGetMp3Head(&Header))
 		return IL_FALSE;
-	if (!iCheckMp3(&Header))
+	if (!iCheckMp3(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 	Type = iFindMp3Pic(&Header);
 	
 	switch (Type)
-- 
2.43.0


From 82c69e494c030391192d9ba00689120b44ca9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 53/72] fix: Pixar headers and seeks are checked

Before: failing reads were taken for data.
---
 DevIL/src-IL/src/il_pxr.cpp | 38 ++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..2c8b72e 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -19,7 +19,7 @@
 #ifdef _MSC_VER
 #pragma pack(push, pxr_struct, 1)
 #endif
-typedef struct PIXHEAD
+typedef struct PXRHEAD
 {
 	ILushort	Signature;
 	ILubyte		Reserved1[413];
@@ -28,7 +28,7 @@ typedef struct PIXHEAD
 	ILubyte		Reserved2[4];
 	ILubyte		BppInfo;
 	ILubyte		Reserved3[598];
-} IL_PACKSTRUCT PIXHEAD;
+} IL_PACKSTRUCT PXRHEAD;
 #ifdef _MSC_VER
 #pragma pack(pop, pxr_struct)
 #endif
@@ -84,35 +84,51 @@ ILboolean iLoadPxrInternal()
 	ILushort	Width, Height;
 	ILubyte		Bpp;
 
-	Width = sizeof(PIXHEAD);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-	iseek(416, IL_SEEK_SET);
+	if (iseek(416, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	Height = GetLittleUShort();
 	Width = GetLittleUShort();
-	iseek(424, IL_SEEK_SET);
+	if (iseek(424, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	Bpp = (ILubyte)igetc();
 
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 	}
 
-	iseek(1024, IL_SEEK_SET);
-	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	if (iseek(1024, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From 8652d39fca6c52fe26868f4c3c62aabd1d60d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 54/72] fix: Scitex reads are checked

Before: failing reads were taken for data, line buffer leaked.
---
 DevIL/src-IL/src/il_scitex.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_scitex.cpp b/DevIL/src-IL/src/il_scitex.cpp
index c2a863d..678d79f 100644
--- a/DevIL/src-IL/src/il_scitex.cpp
+++ b/DevIL/src-IL/src/il_scitex.cpp
@@ -45,7 +45,7 @@ ILboolean iGetScitexHead(SCITEXHEAD *Header)
 		return IL_FALSE;
 	if (iread(Header->Sig, 1, 2) != 2)
 		return IL_FALSE;
-	if (iseek(942, IL_SEEK_CUR) == -1)
+	if (iseek(942, IL_SEEK_CUR))
 		return IL_FALSE;
 	Header->Units = igetc();
 	Header->NumChans = igetc();
@@ -138,12 +138,12 @@ ILboolean ilIsValidScitexL(const void *Lump, ILuint Size)
 ILboolean iIsValidScitex(void)
 {
 	SCITEXHEAD Header;
+	ILuint Pos = itell();
+	ILboolean IsValid = iGetScitexHead(&Header);
 
-	if (!iGetScitexHead(&Header))
-		return IL_FALSE;
-	iseek(-2048, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
-	return iCheckScitex(&Header);
+	return IsValid && iCheckScitex(&Header);
 }
 
 
@@ -227,10 +227,14 @@ ILboolean iLoadScitexInternal(void)
 		return IL_FALSE;
 	}
 	if (!iCheckScitex(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	iseek(2048, IL_SEEK_SET);
+	if (iseek(2048, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	RowData = (ILubyte*)ialloc(Header.WidthPixels);
 	if (RowData == NULL)
 		return IL_FALSE;
@@ -275,7 +279,11 @@ ILboolean iLoadScitexInternal(void)
 
 			for (ILuint h = 0; h < iCurImage->Height; h++)
 			{
-				iread(iCurImage->Data + Pos, 1, iCurImage->Width);
+				if (iread(iCurImage->Data + Pos, 1, iCurImage->Width) != iCurImage->Width)
+				{
+					ifree(RowData);
+					return IL_FALSE;
+				}
 				if (iCurImage->Width % 2 != 0)  // Pads to even width
 					igetc();
 				Pos += Header.WidthPixels;
@@ -286,6 +294,7 @@ ILboolean iLoadScitexInternal(void)
 		//case 15:
 		//default:
 	}
+	ifree(RowData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return ilFixImage();
-- 
2.43.0


From 5d19772170e4dac8d20643fce745d0a1bbc952d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 55/72] fix: IWI reads are checked and the probe restores the
 position

Before: failing reads were taken for data.
---
 DevIL/src-IL/src/il_iwi.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_iwi.cpp b/DevIL/src-IL/src/il_iwi.cpp
index 5309b11..5016b08 100644
--- a/DevIL/src-IL/src/il_iwi.cpp
+++ b/DevIL/src-IL/src/il_iwi.cpp
@@ -97,7 +97,10 @@ ILboolean iGetIwiHead(IWIHEAD *Header)
 	Header->Height = GetLittleUShort();
 
 	// @TODO: Find out what is in the rest of the header.
-	iseek(18, IL_SEEK_CUR);
+	if (iseek(18, IL_SEEK_CUR)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -108,13 +111,12 @@ ILboolean iIsValidIwi(void)
 {
 	IWIHEAD		Header;
 	ILuint		Pos = itell();
+	ILboolean	IsValid = iGetIwiHead(&Header);
 
-	if (!iGetIwiHead(&Header))
-		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
-	return iCheckIwi(&Header);
+	return IsValid && iCheckIwi(&Header);
 }
 
 
@@ -329,7 +331,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT1:
 				// DXT1 data has at least 8 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height / 2, 8);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -356,7 +358,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT3:
 				// DXT3 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -374,7 +376,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT5:
 				// DXT5 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
-- 
2.43.0


From bc8a201a08909c57d05b01e0a07d75ca40c5dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 56/72] fix: ICNS sizes are checked and buffers freed

Before: unchecked sizes and reads, leaks on failure.
---
 DevIL/src-IL/src/il_icns.cpp | 67 +++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..f3803e2 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -86,10 +86,10 @@ ILboolean iIsValidIcns()
 {
 	ICNSHEAD	Header;
 
-	iread(Header.Head, 1, 4);
-	iseek(-4, IL_SEEK_CUR);  // Go ahead and restore to previous state
+	ILint		Read = iread(Header.Head, 1, 4);
+	iseek(-Read, IL_SEEK_CUR);  // Go ahead and restore to previous state
 
-	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
+	if (Read != 4 || strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
 		return IL_FALSE;
 
 	return IL_TRUE;
@@ -153,16 +153,24 @@ ILboolean iLoadIcnsInternal()
 		return IL_FALSE;
 	}
 
-	iread(Header.Head, 4, 1);
+	if (iread(Header.Head, 4, 1) != 1)
+		return IL_FALSE;
 	Header.Size = GetBigInt();
 
-	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
+	if (strncmp(Header.Head, "icns", 4)) {  // First 4 bytes have to be 'icns'.
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
-	while ((ILint)itell() < Header.Size && !ieof())
+	while ((ILint)itell() < Header.Size)
 	{
-		iread(Entry.ID, 4, 1);
+		if (iread(Entry.ID, 4, 1) != 1)
+			goto icns_error;
 		Entry.Size = GetBigInt();
+		if (Entry.Size < 8) {  // The size includes the header of the entry.
+			ilSetError(IL_INVALID_FILE_HEADER);
+			goto icns_error;
+		}
 
 		if (!strncmp(Entry.ID, "it32", 4))  // 128x128 24-bit
 		{
@@ -218,10 +226,18 @@ ILboolean iLoadIcnsInternal()
 #endif//IL_NO_JP2
 		else  // Not a valid format or one that we can use
 		{
-			iseek(Entry.Size - 8, IL_SEEK_CUR);
+			if (iseek(Entry.Size - 8, IL_SEEK_CUR)) {
+				ilSetError(IL_FILE_READ_ERROR);
+				goto icns_error;
+			}
 		}
 	}
 
+	if (!BaseCreated) {  // No entry that we can use
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 
 icns_error:
@@ -252,15 +268,29 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		}
 	}
 
+	if (Entry->Size <= 8) {  // Nothing but the header of the entry
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	Data = (ILubyte*)ialloc(Entry->Size - 8);
 	if (Data == NULL)
 		return IL_FALSE;
 
+	if (iread(Data, Entry->Size - 8, 1) != 1)  // Size includes the header
+	{
+		ifree(Data);
+		return IL_FALSE;
+	}
+
 	if (!ImageAlreadyExists)
 	{
 		if (!*BaseCreated)  // Create base image
 		{
-			ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			*Image = iCurImage;
 			*BaseCreated = IL_TRUE;
@@ -268,19 +298,25 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		else  // Create next image in list
 		{
 			(*Image)->Next = ilNewImage(Width, Width, 1, 4, 1);
+			if ((*Image)->Next == NULL)
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			*Image = (*Image)->Next;
 			(*Image)->Format = IL_RGBA;
 			(*Image)->Origin = IL_ORIGIN_UPPER_LEFT;
 		}
 
 		TempImage = *Image;
+		memset(TempImage->Data, 0xFF, TempImage->SizeOfData);  // Opaque unless there is a mask.
 	}
 
 	if (IsAlpha)  // Alpha is never compressed.
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (Entry->Size - 8 != Width * Width)
 		{
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			ifree(Data);
 			return IL_FALSE;
 		}
@@ -293,7 +329,6 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	else if (Width == 256 || Width == 512)  // JPEG2000 encoded - uses JasPer
 	{
 #ifndef IL_NO_JP2
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (ilLoadJp2LInternal(Data, Entry->Size - 8, TempImage) == IL_FALSE)
 		{
 			ifree(Data);
@@ -302,12 +337,12 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		}
 #else  // Cannot handle this size.
 		ilSetError(IL_LIB_JP2_ERROR);  //@TODO: Handle this better...just skip the data.
+		ifree(Data);
 		return IL_FALSE;
 #endif//IL_NO_JP2
 	}
 	else  // RGB data
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (Width == 128)
 			RLEPos += 4;  // There are an extra 4 bytes here of zeros.
 		//@TODO: Should we check to make sure they are all 0?
@@ -329,8 +364,14 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 				Position = 0;
 				while (Position < Width * Width)
 				{
-					RLERead = Data[RLEPos];
+					RLERead = RLEPos < Entry->Size - 8 ? Data[RLEPos] : 0;
 					RLEPos++;
+					if (RLEPos + (RLERead >= 128 ? 1 : RLERead + 1) > Entry->Size - 8)
+					{
+						ilSetError(IL_ILLEGAL_FILE_VALUE);
+						ifree(Data);
+						return IL_FALSE;
+					}
 
 					if (RLERead >= 128)
 					{
-- 
2.43.0


From 8ce41b3c69f12c03b4704f0eff3d759e3f8ef849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 57/72] fix: KTX reads are checked

Before: failing reads were taken for data.
---
 DevIL/src-IL/src/il_ktx.cpp | 55 ++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 51db2da..59f1ad2 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -219,6 +219,8 @@ ILboolean iLoadKtxInternal()
 	Header.numberOfFaces = GetLittleUInt();
 	Header.numberOfMipmapLevels = GetLittleUInt();
 	Header.bytesOfKeyValueData = GetLittleUInt();
+	if (Header.numberOfMipmapLevels == 0)  // Only the base level is in the file.
+		Header.numberOfMipmapLevels = 1;
 
 	if (memcmp(Header.identifier, FileIdentifier, 12) || Header.endianness != 0x04030201) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -333,18 +335,22 @@ ILboolean iLoadKtxInternal()
 		switch (Header.glInternalFormat)
 		{
 			case I_GL_ETC1_RGB8_OES:
-				ILubyte *FullBuffer = (ILubyte*)ialloc(Header.pixelWidth * Header.pixelHeight / 2);
+				ILuint BufferSize = ((Header.pixelWidth + 3) / 4) * ((Header.pixelHeight + 3) / 4) * 8;
+				ILubyte *FullBuffer = (ILubyte*)ialloc(BufferSize);
 				ILuint UnpackBuff[16*4];
 				ILuint *Data = (ILuint*)iCurImage->Data;  // Easier copies
 
 				if (FullBuffer == NULL)
 					return IL_FALSE;
-				if (imageSize != Header.pixelWidth * Header.pixelHeight / 2) {
+				if (imageSize != BufferSize) {
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					ifree(FullBuffer);
 					return IL_FALSE;
 				}
-				if (iread(FullBuffer, 1, imageSize) != imageSize)
+				if (iread(FullBuffer, 1, imageSize) != imageSize) {
+					ifree(FullBuffer);
 					return IL_FALSE;
+				}
 
 				ILuint BlockPos = 0;
 				for (ILuint y = 0; y < iCurImage->Height; y+=4)
@@ -356,9 +362,10 @@ ILboolean iLoadKtxInternal()
 						ILuint c = 0;
 						for (ILuint y1 = 0; y1 < 4; y1++)
 						{
-							for (ILuint x1 = 0; x1 < 4; x1++)
+							for (ILuint x1 = 0; x1 < 4; x1++, c++)
 							{
-								Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[c++];
+								if (x + x1 < iCurImage->Width && y + y1 < iCurImage->Height)
+									Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[c];
 							}
 						}
 						BlockPos += 8;
@@ -392,13 +399,18 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 	if (KeyValueData == NULL)
 		return IL_FALSE;
 
-	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData)
+	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData) {
+		ifree(KeyValueData);
 		return IL_FALSE;
+	}
 
 	// Just a very rudimentary check on the origin values
-	while (Pos < bytesOfKeyValueData)
+	while (bytesOfKeyValueData - Pos >= 4)
 	{
-		Length = *((ILuint*)&KeyValueData[Pos]);
+		memcpy(&Length, &KeyValueData[Pos], 4);
+		UInt(&Length);
+		if (Length > bytesOfKeyValueData - Pos - 4)
+			break;
 		if (Length >= 22)  // Size needed for the KTXorientation key
 		{
 			if (!strncmp((const char*)&KeyValueData[Pos+4], "KTXorientation", 14))
@@ -412,9 +424,11 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 			}
 		}
 
-		Pos += Length;
-		if (Pos >= bytesOfKeyValueData)
+		Length += 4;  // The size itself and the padding to a dword
+		Length += (4 - Length % 4) % 4;
+		if (Length >= bytesOfKeyValueData - Pos)
 			break;
+		Pos += Length;
 	}
 
 	ifree(KeyValueData);
@@ -445,7 +459,7 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 		if (Image->Bps % 4 == 0)  // Required to be dword-aligned
 		{
 			if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
-				return IL_FALSE;
+				goto mip_fail;
 		}
 		else  // Since not dword-aligned, have to read each line separately.
 		{
@@ -453,15 +467,18 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 			for (ILuint h = 0; h < Height; h++)
 			{
 				if (iread(&Image->Data[Pos], 1, Image->Bps) != Image->Bps)
-					return IL_FALSE;
-				iseek(Padding, IL_SEEK_CUR);
+					goto mip_fail;
+				if (iseek(Padding, IL_SEEK_CUR)) {
+					ilSetError(IL_FILE_READ_ERROR);
+					goto mip_fail;
+				}
 				Pos += Image->Bps;
 			}
 		}
 
 		Image->Origin = Origin;
-		Width = Width / 2;
-		Height = Height / 2;
+		Width = IL_MAX(Width / 2, 1);
+		Height = IL_MAX(Height / 2, 1);
 
 		if (Mip < NumMips - 1)
 		{
@@ -478,13 +495,7 @@ ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
 
 mip_fail:
 	Image = iCurImage;
-	ILimage *StartImage = Image->Mipmaps, *TempImage;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
 	return IL_FALSE;
 }
-- 
2.43.0


From b8ceeebbfc8a4cc62c8bc4f743c297670bbaa3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 58/72] fix: TPL reads are checked, blocks stay inside the
 image

Before: failing reads were taken for data, blocks written past the image.
---
 DevIL/src-IL/src/il_tpl.cpp | 153 ++++++++++++++++++++++++++----------
 1 file changed, 111 insertions(+), 42 deletions(-)

diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index bc254fa..636b27d 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -116,12 +116,12 @@ ILboolean iGetTplHead(TPLHEAD *Header)
 ILboolean iIsValidTpl(void)
 {
 	TPLHEAD Header;
+	ILuint Pos = itell();
+	ILboolean IsValid = iGetTplHead(&Header);
 
-	if (!iGetTplHead(&Header))
-		return IL_FALSE;
-	iseek(-12, IL_SEEK_CUR);
-	
-	return iCheckTpl(&Header);
+	iseek(Pos, IL_SEEK_SET);
+
+	return IsValid && iCheckTpl(&Header);
 }
 
 
@@ -216,19 +216,28 @@ ILboolean iLoadTplInternal(void)
 
 	for (n = 0; n < Header.nTextures; n++) {
 		// Go back to the texture header directory for texture number n+1.
-		iseek(Pos + n * 8, IL_SEEK_SET);
+		if (iseek(Pos + n * 8, IL_SEEK_SET)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 		TexOff = GetBigUInt();
 		PalOff = GetBigUInt();
+		if (TexOff < Header.HeaderSize) {  // Would be inside of the file header
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		// Go to the texture header.
-		if (iseek(TexOff, IL_SEEK_SET))
+		if (iseek(TexOff, IL_SEEK_SET)) {
+			ilSetError(IL_FILE_READ_ERROR);
 			return IL_FALSE;
+		}
 
 		Height = GetBigUShort();
 		Width = GetBigUShort();
 		// It looks like files actually have n-1 images, with the nth one having 0 height and width.
 		if (Width == 0 || Height == 0) {
 			// If this is our first image, however, we error out.
-			if (Image == iCurImage) {
+			if (n == 0) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 			}
@@ -249,8 +258,10 @@ ILboolean iLoadTplInternal(void)
 		}
 
 		// Go to the actual texture data.
-		if (iseek(TexOff, IL_SEEK_SET))
+		if (iseek(TexOff, IL_SEEK_SET)) {
+			ilSetError(IL_FILE_READ_ERROR);
 			return IL_FALSE;
+		}
 
 		switch (DataFormat)
 		{
@@ -262,7 +273,7 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA4:
 			case TPL_IA8:
 				Format = IL_LUMINANCE_ALPHA;
-				Bpp = 1;
+				Bpp = 2;
 				break;
 			case TPL_RGB565:
 				Format = IL_RGB;
@@ -283,7 +294,7 @@ ILboolean iLoadTplInternal(void)
 				break;
 			case TPL_CI14X2:
 				Format = IL_RGBA;
-				Bpp = 3;
+				Bpp = 4;
 				break;
 			case TPL_CMP:
 				Format = IL_RGBA;
@@ -295,7 +306,7 @@ ILboolean iLoadTplInternal(void)
 				return IL_FALSE;
 		}
 
-		if (Image == iCurImage) {  // This is our first image.
+		if (n == 0) {  // This is our first image.
 			if (!ilTexImage(Width, Height, 1, Bpp, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 		}
@@ -315,7 +326,10 @@ ILboolean iLoadTplInternal(void)
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 8; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+								if (iseek(4, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -326,9 +340,9 @@ ILboolean iLoadTplInternal(void)
 								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
 								DataOff++;
 								// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-								if ((x + xBlock) >= Image->Width)
+								if ((x + xBlock + 1) >= Image->Width)
 									continue;  // Already read the pad byte.
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
+								Image->Data[DataOff] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
 								DataOff++;
 							}
 						}
@@ -342,7 +356,10 @@ ILboolean iLoadTplInternal(void)
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+								if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -365,11 +382,14 @@ ILboolean iLoadTplInternal(void)
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+								if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
+							for (xBlock = 0; xBlock < 8; xBlock++) {
 								BytePixel = igetc();
 								if ((x + xBlock) >= Image->Width)
 									continue;  // Already read the pad byte.
@@ -388,13 +408,19 @@ ILboolean iLoadTplInternal(void)
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+								if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock += 2) {
+							for (xBlock = 0; xBlock < 4; xBlock++) {
 								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip the pad bytes.
+									if (iseek(2, IL_SEEK_CUR)) {  // Skip the pad bytes.
+										ilSetError(IL_FILE_READ_ERROR);
+										return IL_FALSE;
+									}
 									continue;
 								}
 								Image->Data[DataOff] = igetc();
@@ -412,7 +438,10 @@ ILboolean iLoadTplInternal(void)
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+								if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -436,7 +465,10 @@ ILboolean iLoadTplInternal(void)
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+								if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -459,7 +491,7 @@ ILboolean iLoadTplInternal(void)
 									Image->Data[DataOff+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
 									Image->Data[DataOff+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
 								}
-								DataOff += 3;
+								DataOff += 4;
 							}
 						}
 					}
@@ -473,7 +505,10 @@ ILboolean iLoadTplInternal(void)
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							// Skip pad bytes at the bottom of the tile if any.
 							if ((y + yBlock) >= Image->Height) {
-								iseek(16, IL_SEEK_CUR);  // Entire row of pad bytes skipped
+								if (iseek(16, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped
+									ilSetError(IL_FILE_READ_ERROR);
+									return IL_FALSE;
+								}
 								continue;
 							}
 
@@ -481,24 +516,30 @@ ILboolean iLoadTplInternal(void)
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
 							for (xBlock = 0; xBlock < 4; xBlock++) {
 								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
+									if (iseek(2, IL_SEEK_CUR)) {  // Skip pad bytes.
+										ilSetError(IL_FILE_READ_ERROR);
+										return IL_FALSE;
+									}
 									continue;
 								}
 								Image->Data[DataOff+3] = igetc();  // Alpha
 								Image->Data[DataOff] = igetc();  // Red
-								DataOff += 3;
+								DataOff += 4;
 							}
 
 							// Then it has the GB data.
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4 && x + xBlock < Image->Width; xBlock++) {
+							for (xBlock = 0; xBlock < 4; xBlock++) {
 								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
+									if (iseek(2, IL_SEEK_CUR)) {  // Skip pad bytes.
+										ilSetError(IL_FILE_READ_ERROR);
+										return IL_FALSE;
+									}
 									continue;
 								}
 								Image->Data[DataOff+1] = igetc();  // Green
 								Image->Data[DataOff+2] = igetc();  // Blue
-								DataOff += 3;
+								DataOff += 4;
 							}
 						}
 					}
@@ -509,8 +550,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_CI8:
 			case TPL_CI14X2:
 				// Seek to the palette header.
-				if (iseek(PalOff, IL_SEEK_SET))
+				if (iseek(PalOff, IL_SEEK_SET)) {
+					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
+				}
 				if (!TplGetIndexImage(Image, TexOff, DataFormat))
 					return IL_FALSE;
 				break;
@@ -531,6 +574,7 @@ ILboolean iLoadTplInternal(void)
 								UShort(&color_1);
 								DxtcReadColor(color_0, colours);
 								DxtcReadColor(color_1, colours + 1);
+								colours[0].a = colours[1].a = colours[2].a = 0xFF;
 								bitmask = ((ILuint*)CompData)[1];
 								UInt(&bitmask);
 
@@ -600,14 +644,23 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 	ILuint		x, y, xBlock, yBlock, i;
 
 	NumPal = GetBigUShort();
-	iseek(2, IL_SEEK_CUR);  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
+	if (iseek(2, IL_SEEK_CUR)) {  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	PalFormat = GetBigUInt();
 
 	// Now we have to find out where the actual palette data is stored.
 	//@TODO: Do we need to set any errors here?
 	PalOff = GetBigUInt();
-	if (iseek(PalOff, IL_SEEK_SET))
+	if (NumPal == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (iseek(PalOff, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	switch (PalFormat)
 	{
@@ -680,8 +733,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 	}
 
 	// Go back to the texture data.
-	if (iseek(TexOff, IL_SEEK_SET))
+	if (iseek(TexOff, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	switch (DataFormat)
 	{
@@ -692,7 +747,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				for (x = 0; x < Image->Width; x += 8) {
 					for (yBlock = 0; yBlock < 8; yBlock++) {
 						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+							if (iseek(4, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+								ilSetError(IL_FILE_READ_ERROR);
+								return IL_FALSE;
+							}
 							continue;
 						}
 						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -700,12 +758,12 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 							BytePixel = igetc();
 							if ((x + xBlock) >= Image->Width)
 								continue;  // Already read the pad byte.
-							Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
+							Image->Data[DataOff] = BytePixel >> 4;
 							DataOff++;
 							// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-							if ((x + xBlock) >= Image->Width)
+							if ((x + xBlock + 1) >= Image->Width)
 								continue;  // Already read the pad byte.
-							Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
+							Image->Data[DataOff] = BytePixel & 0x0F;
 							DataOff++;
 						}
 					}
@@ -720,7 +778,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				for (x = 0; x < Image->Width; x += 8) {
 					for (yBlock = 0; yBlock < 4; yBlock++) {
 						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+							if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+								ilSetError(IL_FILE_READ_ERROR);
+								return IL_FALSE;
+							}
 							continue;
 						}
 						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -746,7 +807,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 				for (x = 0; x < Image->Width; x += 4) {
 					for (yBlock = 0; yBlock < 4; yBlock++) {
 						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
+							if (iseek(8, IL_SEEK_CUR)) {  // Entire row of pad bytes skipped.
+								ilSetError(IL_FILE_READ_ERROR);
+								return IL_FALSE;
+							}
 							continue;
 						}
 						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
@@ -756,7 +820,11 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 								continue;
 							}
 							ShortPixel = GetBigUShort();
-							ShortPixel >>= 2;  // Lower 2 bits are padding bits.
+							ShortPixel &= 0x3FFF;  // Only the lower 14 bits are the index.
+							if (ShortPixel >= NumPal) {
+								ilSetError(IL_ILLEGAL_FILE_VALUE);
+								return IL_FALSE;
+							}
 							Image->Data[DataOff] = Image->Pal.Palette[ShortPixel * PalBpp];
 							Image->Data[DataOff+1] = Image->Pal.Palette[ShortPixel * PalBpp + 1];
 							Image->Data[DataOff+2] = Image->Pal.Palette[ShortPixel * PalBpp + 2];
@@ -764,13 +832,14 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 								Image->Data[DataOff+3] = 0xFF;
 							else
 								Image->Data[DataOff+3] = Image->Pal.Palette[ShortPixel * PalBpp + 3];
-							DataOff++;
+							DataOff += 4;
 						}
 					}
 				}
 			}
 			// Get rid of the palette, since we no longer need it.
 			ifree(Image->Pal.Palette);
+			Image->Pal.Palette = NULL;
 			Image->Pal.PalType = IL_PAL_NONE;
 			Image->Pal.PalSize = 0;
 			break;
-- 
2.43.0


From cfa621ae8d3c3c764608a17d2b52bb1f74db6ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 59/72] fix: ROT levels are read with checks

Before: failing reads were taken for data.
---
 DevIL/src-IL/src/il_rot.cpp | 39 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index c6ec36b..27c37fa 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -86,9 +86,11 @@ ILboolean iLoadRotInternal(void)
 	}
 
 	// The first entry in the file must be 'FORM', 0x20 in a big endian integer and then 'HEAD'.
-	iread(Form, 1, 4);
+	if (iread(Form, 1, 4) != 4)
+		imemclear(Form, 4);
 	FormLen = GetBigUInt();
-	iread(FormName, 1, 4);
+	if (iread(FormName, 1, 4) != 4)
+		imemclear(FormName, 4);
 	if (strncmp((char*)Form, "FORM", 4) || FormLen != 0x14 || strncmp((char*)FormName, "HEAD", 4)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -105,11 +107,13 @@ ILboolean iLoadRotInternal(void)
 		case ROT_RGBA32:  // 32-bit RGBA format
 			Channels = 4;
 			FormatIL = IL_RGBA;
+			CompSize = Width * Height * 4;
 			break;
 
 		case ROT_DXT1:  // DXT1 (no alpha)
 			Channels = 4;
 			FormatIL = IL_RGBA;
+			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 8;
 			break;
 
 		case ROT_DXT3:  // DXT3
@@ -118,9 +122,6 @@ ILboolean iLoadRotInternal(void)
 			FormatIL = IL_RGBA;
 			// Allocates the maximum needed (the first width/height given in the file).
 			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 16;
-			CompData = (ILubyte*)ialloc(CompSize);
-			if (CompData == NULL)
-				return IL_FALSE;
 			break;
 
 		default:
@@ -137,9 +138,11 @@ ILboolean iLoadRotInternal(void)
 	GetLittleUInt();  // Skip this for the moment.  This appears to be the number of channels.
 
 	// Next comes 'FORM', a length and 'MIPS'.
-	iread(Form, 1, 4);
+	if (iread(Form, 1, 4) != 4)
+		imemclear(Form, 4);
 	FormLen = GetBigUInt();
-	iread(FormName, 1, 4);
+	if (iread(FormName, 1, 4) != 4)
+		imemclear(FormName, 4);
 	//@TODO: Not sure if the FormLen has to be anything specific here.
 	if (strncmp((char*)Form, "FORM", 4) || strncmp((char*)FormName, "MIPS", 4)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
@@ -150,10 +153,12 @@ ILboolean iLoadRotInternal(void)
 	Image = iCurImage;
 	do {
 		// Then we have 'FORM' again.
-		iread(Form, 1, 4);
+		if (iread(Form, 1, 4) != 4)
+			imemclear(Form, 4);
 		// This is the size of the mipmap data.
 		MipSize = GetBigUInt();
-		iread(FormName, 1, 4);
+		if (iread(FormName, 1, 4) != 4)
+			imemclear(FormName, 4);
 		if (strncmp((char*)Form, "FORM", 4)) {
 			if (!BaseCreated) {  // Our file is malformed.
 				ilSetError(IL_INVALID_FILE_HEADER);
@@ -174,7 +179,7 @@ ILboolean iLoadRotInternal(void)
 		MipSize = GetLittleUInt();  // This is the same as the previous size listed -20 (for attributes).
 
 		// Lower level mipmaps cannot be larger than the main image.
-		if (MipWidth > Width || MipHeight > Height || MipSize > CompSize) {
+		if (MipWidth == 0 || MipHeight == 0 || MipWidth > Width || MipHeight > Height || MipSize > CompSize) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -187,6 +192,8 @@ ILboolean iLoadRotInternal(void)
 		}
 		else {
 			Image->Mipmaps = ilNewImageFull(MipWidth, MipHeight, 1, Channels, FormatIL, IL_UNSIGNED_BYTE, NULL);
+			if (Image->Mipmaps == NULL)
+				return IL_FALSE;
 			Image = Image->Mipmaps;
 		}
 
@@ -209,8 +216,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT1 data...
-				if (iread(CompData, CompSize, 1) != 1)
+				if (iread(CompData, CompSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT1(Image, CompData)) {
 					ifree(CompData);
@@ -236,8 +245,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT3 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT3(Image, CompData)) {
 					ifree(CompData);
@@ -263,8 +274,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT5 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT5(Image, CompData)) {
 					ifree(CompData);
-- 
2.43.0


From dfef38eb0fe0388b122b247cbe7ee472dd0ee589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 60/72] fix: BLP reads, sizes and buffers are checked

Before: failing reads were taken for data, leaks on failure.
---
 DevIL/src-IL/src/il_blp.cpp | 94 ++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 28 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..ed9a6d4 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -121,7 +121,8 @@ ILboolean iGetBlp2Head(BLP2HEAD *Header)
 {
 	ILuint i;
 
-	iread(Header->Sig, 1, 4);
+	if (iread(Header->Sig, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Type = GetLittleUInt();
 	Header->Compression = igetc();
 	Header->AlphaBits = igetc();
@@ -141,13 +142,14 @@ ILboolean iGetBlp2Head(BLP2HEAD *Header)
 // Internal function to get the header and check it.
 ILboolean iIsValidBlp2(void)
 {
-	BLP2HEAD Header;
+	BLP2HEAD	Header;
+	ILuint		Pos = itell();
+	ILboolean	IsValid = iGetBlp2Head(&Header);
 
-	if (!iGetBlp2Head(&Header))
-		return IL_FALSE;
-	iseek(-148, IL_SEEK_CUR);
-	
-	return iCheckBlp2(&Header);
+	// A file that is too short leaves us somewhere in the header, so go back to the original position.
+	iseek(Pos, IL_SEEK_SET);
+
+	return IsValid && iCheckBlp2(&Header);
 }
 
 
@@ -230,6 +232,7 @@ ILboolean iLoadBlpInternal(void)
 	ILint		y;
 	ILboolean	BaseCreated = IL_FALSE;
 	ILubyte		*DataAndAlpha = NULL, *Palette = NULL, AlphaMask; //, *JpegHeader, *JpegData;
+	ILuint		StartPos = itell();
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -245,8 +248,10 @@ ILboolean iLoadBlpInternal(void)
 	}
 
 //@TODO: Remove this!
-	if (Header.Type != BLP_TYPE_DXTC_RAW)
+	if (Header.Type != BLP_TYPE_DXTC_RAW) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
+	}
 
 	switch (Header.Compression)
 	{
@@ -257,7 +262,7 @@ ILboolean iLoadBlpInternal(void)
 						break;
 					if (Image->Width == 1 && Image->Height == 1)  // Already at the smallest mipmap (1x1), so we are done.
 						break;
-					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths == 0)  // No more mipmaps in the file.
+					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths[Mip] == 0)  // No more mipmaps in the file.
 						break;
 				}
 
@@ -284,7 +289,8 @@ ILboolean iLoadBlpInternal(void)
 								return IL_FALSE;
 
 							// Copy the palette from the first image before we change our Image pointer.
-							iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal);
+							if (!iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal))
+								return IL_FALSE;
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
 						}
@@ -297,7 +303,10 @@ ILboolean iLoadBlpInternal(void)
 							return IL_FALSE;
 						}
 						// Finally read in the image data.
-						iseek(Header.MipOffsets[Mip], IL_SEEK_SET);
+						if (iseek(Header.MipOffsets[Mip], IL_SEEK_SET)) {
+							ilSetError(IL_FILE_READ_ERROR);
+							return IL_FALSE;
+						}
 						if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
 							return IL_FALSE;
 						break;
@@ -322,15 +331,17 @@ ILboolean iLoadBlpInternal(void)
 							// We only allocate this once and reuse this buffer with every mipmap (since successive ones are smaller).
 							DataAndAlpha = (ILubyte*)ialloc(Image->Width * Image->Height);
 							if (DataAndAlpha == NULL) {
-								ifree(DataAndAlpha);
 								ifree(Palette);
 								return IL_FALSE;
 							}
 						}
 						else {
 							Image->Mipmaps = ilNewImageFull(Image->Width >> 1, Image->Height >> 1, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-							if (Image->Mipmaps == NULL)
+							if (Image->Mipmaps == NULL) {
+								ifree(DataAndAlpha);
+								ifree(Palette);
 								return IL_FALSE;
+							}
 
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
@@ -338,18 +349,23 @@ ILboolean iLoadBlpInternal(void)
 						// The origin should be in the upper left.
 						Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
-						// Determine the size of the alpha data following the color indices.
-						AlphaSize = Image->Width * Image->Height / 8;
-						if (AlphaSize == 0)
-							AlphaSize = 1;  // Should never be 0.
+						// Determine the size of the alpha data following the color indices (1 bit per pixel, rounded up).
+						AlphaSize = (Image->Width * Image->Height + 7) / 8;
 						// These two should be the same (tells us how much data is in the file for this mipmap level).
 						if (Header.MipLengths[Mip] != Image->SizeOfData / 4 + AlphaSize) {
 							ilSetError(IL_INVALID_FILE_HEADER);
+							ifree(DataAndAlpha);
+							ifree(Palette);
 							return IL_FALSE;
 						}
 
 						// Seek to the data and read it.
-						iseek(Header.MipOffsets[Mip], IL_SEEK_SET);						
+						if (iseek(Header.MipOffsets[Mip], IL_SEEK_SET)) {
+							ilSetError(IL_FILE_READ_ERROR);
+							ifree(DataAndAlpha);
+							ifree(Palette);
+							return IL_FALSE;
+						}
 						if (iread(DataAndAlpha, Image->Width * Image->Height, 1) != 1) {
 							ifree(DataAndAlpha);
 							ifree(Palette);
@@ -437,7 +453,11 @@ ILboolean iLoadBlpInternal(void)
 					return IL_FALSE;
 
 				// Read in the compressed mipmap data.
-				iseek(Header.MipOffsets[Mip], IL_SEEK_SET);
+				if (iseek(Header.MipOffsets[Mip], IL_SEEK_SET)) {
+					ilSetError(IL_FILE_READ_ERROR);
+					ifree(CompData);
+					return IL_FALSE;
+				}
 				if (iread(CompData, 1, Header.MipLengths[Mip]) != Header.MipLengths[Mip]) {
 					ifree(CompData);
 					return IL_FALSE;
@@ -503,7 +523,7 @@ ILboolean iLoadBlpInternal(void)
 	return ilFixImage();
 
 check_blp1:
-	iseek(-148, IL_SEEK_CUR);  // Go back the size of the BLP2 header, since we tried reading it.
+	iseek(StartPos, IL_SEEK_SET);  // Go back to where the BLP2 header started, since we tried reading it.
 	return iLoadBlp1();
 }
 
@@ -512,7 +532,8 @@ ILboolean iGetBlp1Head(BLP1HEAD *Header)
 {
 	ILuint i;
 
-	iread(Header->Sig, 1, 4);
+	if (iread(Header->Sig, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Compression = GetLittleUInt();
 	Header->Flags = GetLittleUInt();
 	Header->Width = GetLittleUInt();
@@ -577,6 +598,7 @@ ILboolean iLoadBlp1()
 		case BLP_TYPE_JPG:
 #ifdef IL_NO_JPG
 			// We can only do the Jpeg decoding if we do not have IL_NO_JPEG defined.
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 #else
 			JpegHeaderSize = GetLittleUInt();
@@ -590,20 +612,28 @@ ILboolean iLoadBlp1()
 			}
 
 			//for (i = 0; i < 16; i++) {  // Possible maximum of 16 mipmaps
-				//@TODO: Check return value?
-				iseek(Header.MipOffsets[i], IL_SEEK_SET);
+				if (iseek(Header.MipOffsets[i], IL_SEEK_SET)) {
+					ilSetError(IL_FILE_READ_ERROR);
+					ifree(JpegHeader);
+					return IL_FALSE;
+				}
 				JpegData = (ILubyte*)ialloc(JpegHeaderSize + Header.MipLengths[i]);
 				if (JpegData == NULL) {
 					ifree(JpegHeader);
 					return IL_FALSE;
 				}
 				memcpy(JpegData, JpegHeader, JpegHeaderSize);
-				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
+				ifree(JpegHeader);
+				if (iread(JpegData + JpegHeaderSize, 1, Header.MipLengths[i]) != Header.MipLengths[i]) {
+					ifree(JpegData);
 					return IL_FALSE;
+				}
 
 				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
+				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+					ifree(JpegData);
 					return IL_FALSE;
+				}
 
 				// The image data is in BGR(A) order, even though it is Jpeg-compressed.
 				if (Image->Format == IL_RGBA)
@@ -613,7 +643,6 @@ ILboolean iLoadBlp1()
 
 				ifree(JpegData);
 			//}
-			ifree(JpegHeader);
 #endif//IL_NO_JPG
 			break;
 
@@ -665,7 +694,10 @@ ILboolean iLoadBlp1()
 						Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 						// Seek to the data and read it.
-						iseek(Header.MipOffsets[i], IL_SEEK_SET);						
+						if (iseek(Header.MipOffsets[i], IL_SEEK_SET)) {
+							ilSetError(IL_FILE_READ_ERROR);
+							return IL_FALSE;
+						}
 						if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
 							return IL_FALSE;
 					}
@@ -688,11 +720,17 @@ ILboolean iLoadBlp1()
 
 					// Read in the data and the palette.
 					if (iread(Palette, 1, 1024) != 1024) {
+						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
 					}
 					// Seek to the data and read it.
-					iseek(Header.MipOffsets[i], IL_SEEK_SET);						
+					if (iseek(Header.MipOffsets[i], IL_SEEK_SET)) {
+						ilSetError(IL_FILE_READ_ERROR);
+						ifree(DataAndAlpha);
+						ifree(Palette);
+						return IL_FALSE;
+					}
 					if (iread(DataAndAlpha, Header.Width * Header.Height, 1) != 1) {
 						ifree(DataAndAlpha);
 						ifree(Palette);
-- 
2.43.0


From 4b059b399505cb3242436e2a1b87733d962f2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 61/72] fix: PCD reads and seeks are checked

Before: failing reads were taken for data.
---
 DevIL/src-IL/src/il_pcd.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcd.cpp b/DevIL/src-IL/src/il_pcd.cpp
index 3ce4202..dfc3b60 100644
--- a/DevIL/src-IL/src/il_pcd.cpp
+++ b/DevIL/src-IL/src/il_pcd.cpp
@@ -109,6 +109,7 @@ ILboolean iLoadPcdInternal()
 	ILuint	Width, Height, i, Total, x, CurPos = 0;
 	ILubyte	*Y1=NULL, *Y2=NULL, *CbCr=NULL, r = 0, g = 0, b = 0;
 	ILuint	PicNum;
+	ILint	SeekFailed;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -126,17 +127,17 @@ ILboolean iLoadPcdInternal()
 	switch (PicNum)
 	{
 		case 0:
-			iseek(0x02000, IL_SEEK_CUR);
+			SeekFailed = iseek(0x02000, IL_SEEK_CUR);
 			Width = 192;
 			Height = 128;
 			break;
 		case 1:
-			iseek(0x0b800, IL_SEEK_CUR);
+			SeekFailed = iseek(0x0b800, IL_SEEK_CUR);
 			Width = 384;
 			Height = 256;
 			break;
 		case 2:
-			iseek(0x30000, IL_SEEK_CUR);
+			SeekFailed = iseek(0x30000, IL_SEEK_CUR);
 			Width = 768;
 			Height = 512;
 			break;
@@ -145,8 +146,10 @@ ILboolean iLoadPcdInternal()
 			return IL_FALSE;
 	}
 
-	if (itell() == IL_EOF)  // Supposed to have data here.
+	if (SeekFailed || itell() == (ILuint)IL_EOF) {  // Supposed to have data here.
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	Y1 = (ILubyte*)ialloc(Width);
 	Y2 = (ILubyte*)ialloc(Width);
@@ -159,15 +162,16 @@ ILboolean iLoadPcdInternal()
 	}
 
 	if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(Y1);
+		ifree(Y2);
+		ifree(CbCr);
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	Total = Height >> 1;
 	for (i = 0; i < Total; i++) {
-		iread(Y1, 1, Width);
-		iread(Y2, 1, Width);
-		if (iread(CbCr, 1, Width) != Width) {  // Only really need to check the last one.
+		if (iread(Y1, 1, Width) != Width || iread(Y2, 1, Width) != Width || iread(CbCr, 1, Width) != Width) {
 			ifree(Y1);
 			ifree(Y2);
 			ifree(CbCr);
-- 
2.43.0


From 24791cb6890490f10a76070c751c1aeafbd861c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 62/72] fix: PSP blocks are read with checks

Before: failing reads were taken for data, buffers leaked and freed twice.
---
 DevIL/src-IL/src/il_psp.cpp | 185 ++++++++++++++++++++++++++----------
 1 file changed, 135 insertions(+), 50 deletions(-)

diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index d8c6669..6720bd7 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -98,11 +98,13 @@ ILboolean iGetPspHead()
 // Internal function to get the header and check it.
 ILboolean iIsValidPsp()
 {
-	if (!iGetPspHead())
-		return IL_FALSE;
-	iseek(-(ILint)sizeof(PSPHEAD), IL_SEEK_CUR);
+	ILuint		Pos = itell();
+	ILboolean	IsValid = iGetPspHead();
+
+	// A file that is too short leaves us somewhere in the header, so go back to the original position.
+	iseek(Pos, IL_SEEK_SET);
 
-	return iCheckPsp();
+	return IsValid && iCheckPsp();
 }
 
 
@@ -174,6 +176,8 @@ ILboolean iLoadPspInternal()
 	Channels = NULL;
 	Alpha = NULL;
 	Pal.Palette = NULL;
+	NumChannels = 0;
+	imemclear(&AttChunk, sizeof(AttChunk));
 
 	if (!iGetPspHead())
 		return IL_FALSE;
@@ -182,12 +186,10 @@ ILboolean iLoadPspInternal()
 		return IL_FALSE;
 	}
 
-	if (!ReadGenAttributes())
-		return IL_FALSE;
-	if (!ParseChunks())
-		return IL_FALSE;
-	if (!AssembleImage())
+	if (!ReadGenAttributes() || !ParseChunks() || !AssembleImage()) {
+		Cleanup();
 		return IL_FALSE;
+	}
 
 	Cleanup();
 	return ilFixImage();
@@ -220,11 +222,17 @@ ILboolean ReadGenAttributes()
 		ChunkLen -= 4;
 	if (iread(&AttChunk, IL_MIN(sizeof(AttChunk), ChunkLen), 1) != 1)
 		return IL_FALSE;
+	if (AttChunk.Width <= 0 || AttChunk.Height <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	// Can have new entries in newer versions of the spec (4.0).
 	Padding = (ChunkLen) - sizeof(AttChunk);
-	if (Padding > 0)
-		iseek(Padding, IL_SEEK_CUR);
+	if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	// @TODO:  Anything but 24 not supported yet...
 	if (AttChunk.BitDepth != 24 && AttChunk.BitDepth != 8) {
@@ -291,7 +299,10 @@ ILboolean ParseChunks()
 		}
 
 		// Skip to next block just in case we didn't read the entire block.
-		iseek(Pos + Block.BlockLen, IL_SEEK_SET);
+		if (iseek(Pos + Block.BlockLen, IL_SEEK_SET)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 
 		// @TODO: Do stuff here.
 
@@ -306,7 +317,7 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 	BLOCKHEAD			Block;
 	LAYERINFO_CHUNK		LayerInfo;
 	LAYERBITMAP_CHUNK	Bitmap;
-	ILuint				ChunkSize, Padding, i, j;
+	ILuint				ChunkSize, Padding, i;
 	ILushort			NumChars;
 
 	BlockLen;
@@ -321,22 +332,30 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 
 	if (Block.HeadID[0] != 0x7E || Block.HeadID[1] != 0x42 ||
 		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
-	if (Block.BlockID != PSP_LAYER_BLOCK)
+	if (Block.BlockID != PSP_LAYER_BLOCK) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 
 	if (Header.MajorVersion == 3) {
-		iseek(256, IL_SEEK_CUR);  // We don't care about the name of the layer.
-		iread(&LayerInfo, sizeof(LayerInfo), 1);
-		if (iread(&Bitmap, sizeof(Bitmap), 1) != 1)
+		if (iseek(256, IL_SEEK_CUR)) {  // We don't care about the name of the layer.
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
+		if (iread(&LayerInfo, sizeof(LayerInfo), 1) != 1 || iread(&Bitmap, sizeof(Bitmap), 1) != 1)
 			return IL_FALSE;
 	}
 	else {  // Header.MajorVersion >= 4
 		ChunkSize = GetLittleUInt();
 		NumChars = GetLittleUShort();
-		iseek(NumChars, IL_SEEK_CUR);  // We don't care about the layer's name.
+		if (iseek(NumChars, IL_SEEK_CUR)) {  // We don't care about the layer's name.
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 
 		ChunkSize -= (2 + 4 + NumChars);
 
@@ -345,32 +364,45 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 
 		// Can have new entries in newer versions of the spec (5.0).
 		Padding = (ChunkSize) - sizeof(LayerInfo);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 
 		ChunkSize = GetLittleUInt();
 		if (iread(&Bitmap, sizeof(Bitmap), 1) != 1)
 			return IL_FALSE;
 		Padding = (ChunkSize - 4) - sizeof(Bitmap);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 	}
 
 
+	// Only one layer is supported, so another layer bank replaces what was read before.
+	if (Channels) {
+		for (i = 0; i < NumChannels; i++)
+			ifree(Channels[i]);
+		ifree(Channels);
+		Channels = NULL;
+		NumChannels = 0;
+	}
+	if (Bitmap.NumChannels == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	Channels = (ILubyte**)ialloc(sizeof(ILubyte*) * Bitmap.NumChannels);
 	if (Channels == NULL) {
 		return IL_FALSE;
 	}
 
-	NumChannels = Bitmap.NumChannels;
-
-	for (i = 0; i < NumChannels; i++) {
+	// NumChannels only counts the channels that have been read, so that Cleanup frees exactly these.
+	for (i = 0; i < Bitmap.NumChannels; i++) {
 		Channels[i] = GetChannel();
-		if (Channels[i] == NULL) {
-			for (j = 0; j < i; j++)
-				ifree(Channels[j]);
+		if (Channels[i] == NULL)
 			return IL_FALSE;
-		}
+		NumChannels++;
 	}
 
 	return IL_TRUE;
@@ -392,8 +424,10 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 		ChunkSize = GetLittleUInt();
 		NumAlpha = GetLittleUShort();
 		Padding = (ChunkSize - 4 - 2);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 	}
 
 	// Alpha channel header
@@ -406,33 +440,45 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 
 	if (Block.HeadID[0] != 0x7E || Block.HeadID[1] != 0x42 ||
 		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
-	if (Block.BlockID != PSP_ALPHA_CHANNEL_BLOCK)
+	if (Block.BlockID != PSP_ALPHA_CHANNEL_BLOCK) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 
 	if (Header.MajorVersion >= 4) {
 		ChunkSize = GetLittleUInt();
 		StringSize = GetLittleUShort();
-		iseek(StringSize, IL_SEEK_CUR);
+		if (iseek(StringSize, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 		if (iread(&AlphaInfo, sizeof(AlphaInfo), 1) != 1)
 			return IL_FALSE;
 		Padding = (ChunkSize - 4 - 2 - StringSize - sizeof(AlphaInfo));
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 
 		ChunkSize = GetLittleUInt();
 		if (iread(&AlphaChunk, sizeof(AlphaChunk), 1) != 1)
 			return IL_FALSE;
 		Padding = (ChunkSize - 4 - sizeof(AlphaChunk));
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 	}
 	else {
-		iseek(256, IL_SEEK_CUR);
-		iread(&AlphaInfo, sizeof(AlphaInfo), 1);
-		if (iread(&AlphaChunk, sizeof(AlphaChunk), 1) != 1)
+		if (iseek(256, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
+		if (iread(&AlphaInfo, sizeof(AlphaInfo), 1) != 1 || iread(&AlphaChunk, sizeof(AlphaChunk), 1) != 1)
 			return IL_FALSE;
 	}
 
@@ -443,6 +489,7 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 	}*/
 
 
+	ifree(Alpha);
 	Alpha = GetChannel();
 	if (Alpha == NULL)
 		return IL_FALSE;
@@ -482,8 +529,10 @@ ILubyte *GetChannel()
 			return NULL;
 
 		Padding = (ChunkSize - 4) - sizeof(Channel);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return NULL;
+		}
 	}
 	else {
 		if (iread(&Channel, sizeof(Channel), 1) != 1)
@@ -509,6 +558,11 @@ ILubyte *GetChannel()
 	{
 		case PSP_COMP_NONE:
 			ifree(Data);
+			if (Channel.CompLen < (ILuint)(AttChunk.Width * AttChunk.Height)) {
+				ifree(CompData);
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return NULL;
+			}
 			return CompData;
 			break;
 
@@ -571,6 +625,12 @@ ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 	for (i = 0, Count = 0; i < (ILint)CompLen; ) {
 		Run = *CompData++;
 		i++;
+		// Neither the compressed data nor the channel may be left.
+		if ((Run > 128 ? 1 : Run) > (ILint)CompLen - i
+			|| (Run > 128 ? Run - 128 : Run) > AttChunk.Width * AttChunk.Height - Count) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		if (Run > 128) {
 			Run -= 128;
 			Colour = *CompData++;
@@ -586,6 +646,11 @@ ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 		Count += Run;
 	}
 
+	if (Count != AttChunk.Width * AttChunk.Height) {  // Some pixels are missing.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	return IL_TRUE;
 }
 
@@ -598,13 +663,22 @@ ILboolean ReadPalette(ILuint BlockLen)
 		ChunkSize = GetLittleUInt();
 		PalCount = GetLittleUInt();
 		Padding = (ChunkSize - 4 - 4);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (Padding > 0 && iseek(Padding, IL_SEEK_CUR)) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 	}
 	else {
 		PalCount = GetLittleUInt();
 	}
 
+	ifree(Pal.Palette);
+	Pal.Palette = NULL;
+	if (PalCount == 0 || PalCount > 256) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	Pal.PalSize = PalCount * 4;
 	Pal.PalType = IL_PAL_BGRA32;
 	Pal.Palette = (ILubyte*)ialloc(Pal.PalSize);
@@ -613,6 +687,7 @@ ILboolean ReadPalette(ILuint BlockLen)
 
 	if (iread(Pal.Palette, Pal.PalSize, 1) != 1) {
 		ifree(Pal.Palette);
+		Pal.Palette = NULL;
 		return IL_FALSE;
 	}
 
@@ -627,7 +702,8 @@ ILboolean AssembleImage()
 	Size = AttChunk.Width * AttChunk.Height;
 
 	if (NumChannels == 1) {
-		ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+			return IL_FALSE;
 		for (i = 0; i < Size; i++) {
 			iCurImage->Data[i] = Channels[0][i];
 		}
@@ -637,11 +713,13 @@ ILboolean AssembleImage()
 			iCurImage->Pal.PalSize = Pal.PalSize;
 			iCurImage->Pal.PalType = Pal.PalType;
 			iCurImage->Pal.Palette = Pal.Palette;
+			Pal.Palette = NULL;  // Now belongs to the image.
 		}
 	}
 	else {
-		if (Alpha) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+		if (Alpha && NumChannels >= 3) {
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
@@ -652,7 +730,8 @@ ILboolean AssembleImage()
 
 		else if (NumChannels == 4) {
 
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 
@@ -668,15 +747,18 @@ ILboolean AssembleImage()
 
 		}
 		else if (NumChannels == 3) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 3) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
 				iCurImage->Data[j+2] = Channels[2][i];
 			}
 		}
-		else
+		else {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
+		}
 	}
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -700,7 +782,10 @@ ILboolean Cleanup()
 		ifree(Alpha);
 	}
 
+	ifree(Pal.Palette);
+
 	Channels = NULL;
+	NumChannels = 0;
 	Alpha = NULL;
 	Pal.Palette = NULL;
 
-- 
2.43.0


From 4c16d5b9cc8310781d5ed22da7b3429be9c8e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 63/72] fix: UTX tables are read with checks

Before: endless loop and stack overflow with failing reads, failing reads taken for data.
---
 DevIL/src-IL/src/il_utx.cpp | 147 ++++++++++++++++++++++++++----------
 1 file changed, 108 insertions(+), 39 deletions(-)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 5e14748..439c806 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -73,18 +73,30 @@ ILboolean ilLoadUtxL(const void *Lump, ILuint Size)
 }
 
 
+static ILuint UtxUInt(const ILubyte *Buf)
+{
+	return Buf[0] | (Buf[1] << 8) | (Buf[2] << 16) | ((ILuint)Buf[3] << 24);
+}
+
+
 ILboolean GetUtxHead(UTXHEADER &Header)
 {
-	Header.Signature = GetLittleUInt();
-	Header.Version = GetLittleUShort();
-	Header.LicenseMode = GetLittleUShort();
-	Header.Flags = GetLittleUInt();
-	Header.NameCount = GetLittleUInt();
-	Header.NameOffset = GetLittleUInt();
-	Header.ExportCount = GetLittleUInt();
-	Header.ExportOffset = GetLittleUInt();
-	Header.ImportCount = GetLittleUInt();
-	Header.ImportOffset = GetLittleUInt();
+	ILubyte	Buf[36];
+
+	// Read in one piece, so that a read that comes up short cannot shift the fields.
+	if (iread(Buf, sizeof(Buf), 1) != 1)
+		return IL_FALSE;
+
+	Header.Signature = UtxUInt(Buf);
+	Header.Version = (ILushort)(UtxUInt(Buf + 4) & 0xFFFF);
+	Header.LicenseMode = (ILushort)(UtxUInt(Buf + 4) >> 16);
+	Header.Flags = UtxUInt(Buf + 8);
+	Header.NameCount = UtxUInt(Buf + 12);
+	Header.NameOffset = UtxUInt(Buf + 16);
+	Header.ExportCount = UtxUInt(Buf + 20);
+	Header.ExportOffset = UtxUInt(Buf + 24);
+	Header.ImportCount = UtxUInt(Buf + 28);
+	Header.ImportOffset = UtxUInt(Buf + 32);
 
 	return IL_TRUE;
 }
@@ -107,13 +119,13 @@ string GetUtxName(UTXHEADER &Header)
 {
 #define NAME_MAX_LEN 256  //@TODO: Figure out if these can possibly be longer.
 	char	Name[NAME_MAX_LEN];
-	ILubyte	Length = 0;
+	ILint	Length = 0;
 
 	// New style (Unreal Tournament) name.  This has a byte at the beginning telling
 	//  how long the string is (plus terminating 0), followed by the terminating 0. 
 	if (Header.Version >= 64) {
 		Length = igetc();
-		if (iread(Name, Length, 1) != 1)
+		if (Length <= 0 || iread(Name, Length, 1) != 1)
 			return "";
 		if (Name[Length-1] != 0)
 			return "";
@@ -127,7 +139,7 @@ string GetUtxName(UTXHEADER &Header)
 	} while (!ieof() && Name[Length-1] != 0 && Length < NAME_MAX_LEN);
 
 	// Never reached the terminating 0.
-	if (Length == NAME_MAX_LEN && Name[Length-1] != 0)
+	if (Name[Length-1] != 0)
 		return "";
 
 	return string(Name);
@@ -140,7 +152,10 @@ bool GetUtxNameTable(vector <UTXENTRYNAME> &NameEntries, UTXHEADER &Header)
 	ILuint	NumRead;
 
 	// Go to the name table.
-	iseek(Header.NameOffset, IL_SEEK_SET);
+	if (iseek(Header.NameOffset, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return false;
+	}
 
 	NameEntries.resize(Header.NameCount);
 
@@ -240,7 +255,10 @@ bool GetUtxExportTable(vector <UTXEXPORTTABLE> &ExportTable, UTXHEADER &Header)
 	ILuint i;
 
 	// Go to the name table.
-	iseek(Header.ExportOffset, IL_SEEK_SET);
+	if (iseek(Header.ExportOffset, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return false;
+	}
 
 	// Create ExportCount elements in our array.
 	ExportTable.resize(Header.ExportCount);
@@ -268,7 +286,10 @@ bool GetUtxImportTable(vector <UTXIMPORTTABLE> &ImportTable, UTXHEADER &Header)
 	ILuint i;
 
 	// Go to the name table.
-	iseek(Header.ImportOffset, IL_SEEK_SET);
+	if (iseek(Header.ImportOffset, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return false;
+	}
 
 	// Allocate the name table.
 	ImportTable.resize(Header.ImportCount);
@@ -324,6 +345,18 @@ ILuint UtxFormatToBpp(ILuint Format)
 
 
 // Internal function used to load the UTX.
+// Gives the name of the class of an entry in the export table, which is empty if there is no such class.
+static string GetUtxClassName(vector <UTXENTRYNAME> &NameEntries, vector <UTXIMPORTTABLE> &ImportTable, UTXEXPORTTABLE &Export)
+{
+	if (Export.Class < 0 || (size_t)Export.Class >= ImportTable.size())
+		return "";
+	ILint ObjectName = ImportTable[Export.Class].ObjectName;
+	if (ObjectName < 0 || (size_t)ObjectName >= NameEntries.size())
+		return "";
+	return NameEntries[ObjectName].Name;
+}
+
+
 ILboolean iLoadUtxInternal(void)
 {
 	UTXHEADER		Header;
@@ -334,12 +367,12 @@ ILboolean iLoadUtxInternal(void)
 	ILimage		*Image;
 	ILuint		NumPal = 0, i, j = 0;
 	ILint		Name;
-	ILubyte		Type;
+	ILint		Type;
 	ILint		Val;
 	ILint		Size;
 	ILint		Width, Height, PalEntry;
 	ILboolean	BaseCreated = IL_FALSE, HasPal;
-	ILint		Format;
+	ILint		Format, SeekFailed;
 	ILubyte		*CompData = NULL;
 
 	if (iCurImage == NULL) {
@@ -349,8 +382,10 @@ ILboolean iLoadUtxInternal(void)
 
 	if (!GetUtxHead(Header))
 		return IL_FALSE;
-	if (!CheckUtxHead(Header))
+	if (!CheckUtxHead(Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	// We grab the name table.
 	if (!GetUtxNameTable(NameEntries, Header))
@@ -364,7 +399,7 @@ ILboolean iLoadUtxInternal(void)
 
 	// Find the number of palettes in the export table.
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette")
+		if (GetUtxClassName(NameEntries, ImportTable, ExportTable[i]) == "Palette")
 			NumPal++;
 	}
 	Palettes.resize(NumPal);
@@ -372,11 +407,18 @@ ILboolean iLoadUtxInternal(void)
 	// Read in all of the palettes.
 	NumPal = 0;
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette") {
+		if (GetUtxClassName(NameEntries, ImportTable, ExportTable[i]) == "Palette") {
 			Palettes[NumPal].Name = i;
-			iseek(ExportTable[NumPal].SerialOffset, IL_SEEK_SET);
+			if (iseek(ExportTable[i].SerialOffset, IL_SEEK_SET)) {
+				ilSetError(IL_FILE_READ_ERROR);
+				return IL_FALSE;
+			}
 			Name = igetc();  // Skip the 2.  @TODO: Can there be more in front of the palettes?
 			Palettes[NumPal].Count = UtxReadCompactInteger();
+			if (Palettes[NumPal].Count == 0 || Palettes[NumPal].Count > 256) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			Palettes[NumPal].Pal = new ILubyte[Palettes[NumPal].Count * 4];
 			if (iread(Palettes[NumPal].Pal, Palettes[NumPal].Count * 4, 1) != 1)
 				return IL_FALSE;
@@ -386,16 +428,26 @@ ILboolean iLoadUtxInternal(void)
 
 	for (i = 0; i < Header.ExportCount; i++) {
 		// Find textures in the file.
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Texture") {
-			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
+		if (GetUtxClassName(NameEntries, ImportTable, ExportTable[i]) == "Texture") {
+			if (iseek(ExportTable[i].SerialOffset, IL_SEEK_SET)) {
+				ilSetError(IL_FILE_READ_ERROR);
+				return IL_FALSE;
+			}
 			Width = -1;  Height = -1;  PalEntry = NumPal;  HasPal = IL_FALSE;  Format = -1;
 
 			do {
 				// Always starts with a comptact integer that gives us an entry into the name table.
 				Name = UtxReadCompactInteger();
+				if (Name < 0 || (ILuint)Name >= Header.NameCount) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
+				Val = -1;
 				if (NameEntries[Name].Name == "None")
 					break;
 				Type = igetc();
+				if (Type == IL_EOF)
+					return IL_FALSE;
 				Size = (Type & 0x70) >> 4;
 
 				if (Type == 0xA2)
@@ -427,21 +479,26 @@ ILboolean iLoadUtxInternal(void)
 
 					case 10:
 						Val = igetc();
+						SeekFailed = 0;
 						switch (Size)
 						{
 							case 0:
-								iseek(1, IL_SEEK_CUR);
+								SeekFailed = iseek(1, IL_SEEK_CUR);
 								break;
 							case 1:
-								iseek(2, IL_SEEK_CUR);
+								SeekFailed = iseek(2, IL_SEEK_CUR);
 								break;
 							case 2:
-								iseek(4, IL_SEEK_CUR);
+								SeekFailed = iseek(4, IL_SEEK_CUR);
 								break;
 							case 3:
-								iseek(12, IL_SEEK_CUR);
+								SeekFailed = iseek(12, IL_SEEK_CUR);
 								break;
 						}
+						if (SeekFailed) {
+							ilSetError(IL_FILE_READ_ERROR);
+							return IL_FALSE;
+						}
 						break;
 
 					default:  // Uhm...
@@ -478,11 +535,14 @@ ILboolean iLoadUtxInternal(void)
 			if (Format == -1)
 				Format = UTX_P8;
 			// Just checks for everything being proper.  If the format is P8, we check to make sure that a palette was found.
-			if (Width == -1 || Height == -1 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1))
+			if (Width == -1 || Height == -1 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
+			}
 			if (BaseCreated == IL_FALSE) {
 				BaseCreated = IL_TRUE;
-				ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL);
+				if (!ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL))
+					return IL_FALSE;
 				Image = iCurImage;
 			}
 			else {
@@ -494,7 +554,10 @@ ILboolean iLoadUtxInternal(void)
 
 			// Skip the mipmap count, width offset and mipmap size entries.
 			//@TODO: Implement mipmaps.
-			iseek(5, IL_SEEK_CUR);
+			if (iseek(5, IL_SEEK_CUR)) {
+				ilSetError(IL_FILE_READ_ERROR);
+				return IL_FALSE;
+			}
 			UtxReadCompactInteger();
 
 			switch (Format)
@@ -509,17 +572,21 @@ ILboolean iLoadUtxInternal(void)
 					memcpy(Image->Pal.Palette, Palettes[PalEntry].Pal, Image->Pal.PalSize);
 					Image->Pal.PalType = IL_PAL_RGBA32;
 
-					if (iread(Image->Data, Image->SizeOfData, 1) != 1)
+					if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
 						return IL_FALSE;
 					break;
 
 				case UTX_DXT1:
-					Image->DxtcSize = IL_MAX(Image->Width * Image->Height / 2, 8);
-					CompData = (ILubyte*)ialloc(Image->DxtcSize);
+					Size = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
+					CompData = (ILubyte*)ialloc(Size);
 					if (CompData == NULL)
 						return IL_FALSE;
 
-					if (iread(CompData, Image->DxtcSize, 1) != 1) {
+					if (iread(CompData, Size, 1) != 1) {
+						ifree(CompData);
+						return IL_FALSE;
+					}
+					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
 						ifree(CompData);
 						return IL_FALSE;
 					}
@@ -527,12 +594,9 @@ ILboolean iLoadUtxInternal(void)
 					if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 						Image->DxtcData = CompData;
 						Image->DxtcFormat = IL_DXT1;
+						Image->DxtcSize = Size;
 						CompData = NULL;
 					}
-					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
-						ifree(CompData);
-						return IL_FALSE;
-					}
 					ifree(CompData);
 					break;
 			}
@@ -540,6 +604,11 @@ ILboolean iLoadUtxInternal(void)
 		}
 	}
 
+	if (!BaseCreated) {  // There is no texture in this package.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 }
 
-- 
2.43.0


From 963fea8735a5fd652b31838d45b52d1b2522420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 64/72] fix: ilCopyPixels clears the part of its buffer that
 the image does not fill

---
 DevIL/src-IL/src/il_manip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index ad9d762..1895b72 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -553,7 +553,8 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		TempBuff = (ILubyte*)Data;
 	}
 	else {
-		TempBuff = (ILubyte*)ialloc(SrcSize);
+		// Cleared, since only the part inside of the image gets copied.
+		TempBuff = (ILubyte*)icalloc(SrcSize, 1);
 		if (TempBuff == NULL) {
 			return 0;
 		}
-- 
2.43.0


From 1f9934c6fe8349a979a14d5cfd487f2c78e199b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 65/72] fix: OS/2 bitmaps are given the origin, format and type
 asked for

---
 DevIL/src-IL/src/il_bmp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 27fa823..be567c2 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -231,7 +231,9 @@ ILboolean iLoadBitmapInternal()
 			return IL_FALSE;
 		}
 		else {
-			return iGetOS2Bmp(&Os2Head);
+			if (!iGetOS2Bmp(&Os2Head))
+				return IL_FALSE;
+			return ilFixImage();
 		}
 	}
 
-- 
2.43.0


From 697d414e865d6c32846338507ba3e28f624af30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 66/72] fix: BLP with JPEG data converts after its channels are
 named

---
 DevIL/src-IL/include/il_jpeg.h |  2 ++
 DevIL/src-IL/src/il_blp.cpp    |  3 ++-
 DevIL/src-IL/src/il_jpeg.cpp   | 41 +++++++++++++++++++++++++++++-----
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/include/il_jpeg.h b/DevIL/src-IL/include/il_jpeg.h
index 4a61f9d..d40f2ba 100644
--- a/DevIL/src-IL/include/il_jpeg.h
+++ b/DevIL/src-IL/include/il_jpeg.h
@@ -20,10 +20,12 @@ ILboolean iIsValidJpg(void);
 
 #ifndef IL_USE_IJL
 	ILboolean iLoadJpegInternal(void);
+	ILboolean iReadJpegLump(const void *Lump, ILuint Size);
 	ILboolean iSaveJpegInternal(void);
 #else
 	ILboolean iLoadJpegInternal(ILconst_string FileName, ILvoid *Lump, ILuint Size);
 	ILboolean iSaveJpegInternal(ILconst_string FileName, ILvoid *Lump, ILuint Size);
+	#define iReadJpegLump ilLoadJpegL
 #endif
 
 #endif//JPEG_H
diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index ed9a6d4..665d068 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -19,6 +19,7 @@
 #include "il_internal.h"
 #ifndef IL_NO_BLP
 #include "il_dds.h"
+#include "il_jpeg.h"
 
 
 typedef struct BLP1HEAD
@@ -630,7 +631,7 @@ ILboolean iLoadBlp1()
 				}
 
 				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+				if (!iReadJpegLump(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
 					ifree(JpegData);
 					return IL_FALSE;
 				}
diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 4cc1648..af4682c 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -67,6 +67,10 @@ static ILboolean jpgErrorOccured = IL_FALSE;
 
 // define a protype of ilLoadFromJpegStruct
 ILboolean ilLoadFromJpegStruct(void *_JpegInfo);
+#if !defined(IL_NO_JPG) && !defined(IL_USE_IJL)
+static ILboolean iReadJpeg(void);
+static ILboolean iReadJpegStruct(void *_JpegInfo);
+#endif
 
 // Internal function used to get the .jpg header from the current file.
 void iGetJpgHead(ILubyte *Header)
@@ -316,8 +320,23 @@ static void iJpegErrorExit( j_common_ptr cinfo )
 	longjmp( JpegJumpBuffer, 1 );
 }
 
+// Reads a jpeg from memory as it is, for formats that have to change the image
+//	before it can be given the origin, format and type asked for.
+ILboolean iReadJpegLump(const void *Lump, ILuint Size)
+{
+	iSetInputLump(Lump, Size);
+	return iReadJpeg();
+}
+
 // Internal function used to load the jpeg.
 ILboolean iLoadJpegInternal()
+{
+	if (!iReadJpeg())
+		return IL_FALSE;
+	return ilFixImage();
+}
+
+static ILboolean iReadJpeg()
 {
 	struct jpeg_error_mgr			Error;
 	struct jpeg_decompress_struct	JpegInfo;
@@ -342,7 +361,7 @@ ILboolean iLoadJpegInternal()
 		devil_jpeg_read_init(&JpegInfo);
 		jpeg_read_header(&JpegInfo, (boolean)IL_TRUE);
 
-		result = ilLoadFromJpegStruct(&JpegInfo);
+		result = iReadJpegStruct(&JpegInfo);
 
 		jpeg_finish_decompress(&JpegInfo);
 		jpeg_destroy_decompress(&JpegInfo);
@@ -353,7 +372,6 @@ ILboolean iLoadJpegInternal()
 		jpeg_destroy_decompress(&JpegInfo);
 	}
 
-	//return ilFixImage();  // No need to call it again (called first in ilLoadFromJpegStruct).
 	return result;
 }
 
@@ -859,6 +877,19 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 {
 #ifndef IL_NO_JPG
 #ifndef IL_USE_IJL
+	if (!iReadJpegStruct(_JpegInfo))
+		return IL_FALSE;
+	return ilFixImage();
+#endif
+#endif
+	return IL_FALSE;
+}
+
+
+#if !defined(IL_NO_JPG) && !defined(IL_USE_IJL)
+// Reads the image without giving it the origin, format and type asked for.
+static ILboolean iReadJpegStruct(void *_JpegInfo)
+{
 	// sam. void (*errorHandler)(j_common_ptr);
 	ILubyte	*TempPtr[1];
 	ILuint	Returned;
@@ -905,11 +936,9 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 	if (jpgErrorOccured)
 		return IL_FALSE;
 
-	return ilFixImage();
-#endif
-#endif
-	return IL_FALSE;
+	return IL_TRUE;
 }
+#endif
 
 
 
-- 
2.43.0


From 1dce992020f3bf5109ed04715fb2015376b2c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 67/72] fix: ILUT settings read and written under the name that
 was given

ilutGetIntegerv answered ILUT_GL_GEN_S3TC with ILUT_GL_USE_S3TC, a rejected
ILUT_S3TC_FORMAT changed ILUT_MAXTEX_WIDTH, and an unknown setting queued two errors.
---
 DevIL/src-ILUT/src/ilut_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0c88430..0350e48 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -228,7 +228,7 @@ void ILAPIENTRY ilutGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
 			break;
 		case ILUT_GL_GEN_S3TC:
-			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
+			*Param = ilutStates[ilutCurrentPos].ilutGenS3TC;
 			break;
 		case ILUT_S3TC_FORMAT:
 			*Param = ilutStates[ilutCurrentPos].ilutDXTCFormat;
@@ -270,6 +270,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 				ilutStates[ilutCurrentPos].ilutDXTCFormat = Param;
 				return;
 			}
+			break;
 
 //#ifdef ILUT_USE_OPENGL
 		case ILUT_MAXTEX_WIDTH:
@@ -333,6 +334,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 
 		default:
 			ilSetError(ILUT_INVALID_ENUM);
+			return;
 	}
 
 	ilSetError(IL_INVALID_PARAM);  // Parameter not in valid bounds.
-- 
2.43.0


From 17c469df86b91ee3d49a9db2625dcbd066f9515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 68/72] fix: ilutPushAttrib leaves no setting of the new level
 undefined

The settings that are not in the groups named kept whatever the level held
before, e.g. a largest texture size of 0; they now have their defaults, and
ILUT_OPENGL_BIT carries all of the OpenGL settings.
---
 DevIL/src-ILUT/src/ilut_states.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0350e48..353ed1c 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -356,9 +356,17 @@ void ILAPIENTRY ilutPushAttrib(ILuint Bits)
 
 	//memcpy(&ilutStates[ilutCurrentPos], &ilutStates[ilutCurrentPos - 1], sizeof(ILUT_STATES));
 
+	ilutDefaultStates();
+
 	if (Bits & ILUT_OPENGL_BIT) {
 		ilutStates[ilutCurrentPos].ilutUsePalettes = ilutStates[ilutCurrentPos-1].ilutUsePalettes;
 		ilutStates[ilutCurrentPos].ilutOglConv = ilutStates[ilutCurrentPos-1].ilutOglConv;
+		ilutStates[ilutCurrentPos].ilutUseS3TC = ilutStates[ilutCurrentPos-1].ilutUseS3TC;
+		ilutStates[ilutCurrentPos].ilutGenS3TC = ilutStates[ilutCurrentPos-1].ilutGenS3TC;
+		ilutStates[ilutCurrentPos].ilutAutodetectTextureTarget = ilutStates[ilutCurrentPos-1].ilutAutodetectTextureTarget;
+		ilutStates[ilutCurrentPos].MaxTexW = ilutStates[ilutCurrentPos-1].MaxTexW;
+		ilutStates[ilutCurrentPos].MaxTexH = ilutStates[ilutCurrentPos-1].MaxTexH;
+		ilutStates[ilutCurrentPos].MaxTexD = ilutStates[ilutCurrentPos-1].MaxTexD;
 	}
 	if (Bits & ILUT_D3D_BIT) {
 		ilutStates[ilutCurrentPos].D3DMipLevels = ilutStates[ilutCurrentPos-1].D3DMipLevels;
-- 
2.43.0


From 8a2e893b77baa9f365e1b6b3082ab64f53a0ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 69/72] fix: error strings come in the language that was set

The tables did not follow the order of the ILU_* languages: ILU_JAPANESE gave
French strings, ILU_SPANISH Japanese ones, and so on.
---
 DevIL/src-ILU/src/ilu_error.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index a954a00..236edb9 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -31,10 +31,10 @@ ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluErrorStringsEnglish,
 	iluErrorStringsArabic,
 	iluErrorStringsDutch,
-	iluErrorStringsFrench,
 	iluErrorStringsJapanese,
 	iluErrorStringsSpanish,
 	iluErrorStringsGerman,
+	iluErrorStringsFrench,
 	iluErrorStringsItalian
 };
 
@@ -42,10 +42,10 @@ ILconst_string *iluLibErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluLibErrorStringsEnglish,
 	iluLibErrorStringsArabic,
 	iluLibErrorStringsDutch,
-	iluLibErrorStringsFrench,
 	iluLibErrorStringsJapanese,
 	iluLibErrorStringsSpanish,
 	iluLibErrorStringsGerman,
+	iluLibErrorStringsFrench,
 	iluLibErrorStringsItalian
 };
 
@@ -53,10 +53,10 @@ ILconst_string *iluMiscErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluMiscErrorStringsEnglish,
 	iluMiscErrorStringsArabic,
 	iluMiscErrorStringsDutch,
-	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsJapanese,
 	iluMiscErrorStringsSpanish,
 	iluMiscErrorStringsGerman,
+	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsItalian
 };
 
-- 
2.43.0


From 6ec09ac046c19a3d3421cf3e7988d3c748afa7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 70/72] fix: iluGenImage leaves the bound image alone when no
 name could be generated

---
 DevIL/src-ILU/src/ilu_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_utilities.cpp b/DevIL/src-ILU/src/ilu_utilities.cpp
index fa4c888..21804f1 100644
--- a/DevIL/src-ILU/src/ilu_utilities.cpp
+++ b/DevIL/src-ILU/src/ilu_utilities.cpp
@@ -23,9 +23,10 @@ void ILAPIENTRY iluDeleteImage(ILuint Id)
 
 ILuint ILAPIENTRY iluGenImage()
 {
-	ILuint Id;
+	ILuint Id = 0;
 	ilGenImages(1, &Id);
-	ilBindImage(Id);
+	if (Id != 0)
+		ilBindImage(Id);
 	return Id;
 }
 
-- 
2.43.0


From c1cfc51378d647768de285e07f66bd08c829a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:04 +0000
Subject: [PATCH 71/72] fix: TIFF files without RowsPerStrip are read as a
 single strip

The tag has a default, but an uninitialised variable was used in its place.
---
 DevIL/src-IL/src/il_tiff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index e6e2b88..24ce87d 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -416,7 +416,7 @@ ILboolean iLoadTiffInternal()
 				}
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
@@ -543,7 +543,7 @@ ILboolean iLoadTiffInternal()
 				Image = Image->Next;
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
-- 
2.43.0


From c16a11eac4c25c7fadd1a5333085e930d2776df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 72/72] fix: TIFF pixels that could not be decoded are reported

TIFFReadRGBAImage goes on after strips or tiles it could not decode and answers
success, so a damaged file, e.g. one cut off while its directory was written,
loaded as if nothing was missing.
---
 DevIL/src-IL/src/il_tiff.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 24ce87d..e3dd93e 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -173,7 +173,7 @@ ILboolean ilLoadTiffL(const void *Lump, ILuint Size)
 /*----------------------------------------------------------------------------*/
 
 // Set when libtiff leaves out a tag (a colour map, say) because it could not read
-//  the tag's data from the file.
+//  the tag's data from the file, or pixels that it could not decode.
 static ILboolean TiffTagLost;
 
 static void lostTagHandler(const char* mod, const char* fmt, va_list ap)
@@ -183,6 +183,13 @@ static void lostTagHandler(const char* mod, const char* fmt, va_list ap)
 		TiffTagLost = IL_TRUE;
 }
 
+// Used where libtiff goes on after pixels that it could not decode.
+static void lostDataHandler(const char* mod, const char* fmt, va_list ap)
+{
+	mod; fmt; ap;
+	TiffTagLost = IL_TRUE;
+}
+
 void warningHandler(const char* mod, const char* fmt, va_list ap)
 {
 	mod; fmt; ap;
@@ -628,7 +635,10 @@ ILboolean iLoadTiffInternal()
 			//this lets me view text.tif, but can give crashes with unsupported
 			//tiffs...
 			//2003-09-04: keep flag 1 for official version for now
-			if (!TIFFReadRGBAImage(tif, Image->Width, Image->Height, (uint32*)Image->Data, 0)) {
+			TIFFSetErrorHandler(lostDataHandler);
+			int Read = TIFFReadRGBAImage(tif, Image->Width, Image->Height, (uint32*)Image->Data, 0);
+			TIFFSetErrorHandler(NULL);
+			if (!Read) {
 				TIFFClose(tif);
 				ilSetError(IL_LIB_TIFF_ERROR);
 				return IL_FALSE;
-- 
2.43.0

