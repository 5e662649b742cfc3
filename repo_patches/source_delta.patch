From b1ff3531ed64c2d47586408a8f8b2456072364b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 01/94] fix: hyper_mat_copy returned NULL for every image
 because its NULL check was inverted

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..ca93da3 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -393,7 +393,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From 0d4944f1cece5fa75a859e1ffb44df44db40f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 02/94] fix: create_simple_mat cleared only the first channel's
 worth of a multi-channel image

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..a801ec5 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -45,7 +45,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, rows * cols * elem_size * channels);
 		mat -> data = (void*)address;
 	}
 	else
-- 
2.43.0


From ae12e69da11ac60e9738ba86aeb3c2bc2451d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 03/94] fix: delete_simple_mat freed an interior pointer, or
 leaked external data, depending on the block's address

---
 modules/core/src/c_src/simplemat.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a801ec5..c34f3c6 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -29,14 +29,13 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	// the padding is kept for external data too, so that the aligned address after the
+	// header always belongs to this block and never to the caller's data
+	int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
 
 	if (data == NULL)
-	{
-		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
-	}
+		memneeded += rows * cols * elem_size * channels;
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
 	hypercv_assert(mat != NULL, "failed to allocate memory");
@@ -494,7 +493,10 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
+
+	if(address == (uintptr_t)mat->data)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From 095cea7a006655f5db9574c9b2ce5536156cce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 04/94] fix: smread read one channel only and left the rest of
 a multi-channel image outside its buffer

---
 modules/core/src/c_src/simplemat.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index c34f3c6..5a337bb 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -74,14 +74,13 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
-	void* data = (void *)malloc(data_size * elem_size);
-
-	fread(data, elem_size, data_size, image_fp);
-	fclose(image_fp);
+	int data_size = rows * cols * channels;
 
 	simple_mat mat;
-	mat = create_simple_mat_with_data(rows, cols, data_type, channels, data);
+	mat = create_simple_mat(rows, cols, data_type, channels);
+
+	fread(mat->data, elem_size, data_size, image_fp);
+	fclose(image_fp);
 
 	return mat;
 }
-- 
2.43.0


From c5f377994f7413b962daaf8b38fe78e25d56e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 05/94] fix: smread_bmp corrupted the heap on 8 bit files,
 leaked their color table and left the middle row of odd heights in blue green
 red order

---
 modules/core/src/c_src/simplemat.c | 58 +++++++++++++++---------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 5a337bb..a5cceab 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -123,49 +123,47 @@ simple_mat smread_bmp(const char *bmpName)
 
 	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
 	BmpInfoHeader head;
-	fread(&head, sizeof(BmpInfoHeader), 1, fp);
- 
+	hypercv_assert(fread(&head, sizeof(BmpInfoHeader), 1, fp) == 1, "bmp header error");
+
 	int channels   = 3;
 	int bmpWidth   = head.biWidth;
 	int bmpHeight  = head.biHeight;
 	int biBitCount = head.biBitCount;
-    int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
-	
+	hypercv_assert(bmpWidth > 0 && bmpHeight > 0, "bmp size error");
+	hypercv_assert(biBitCount == 8 || biBitCount == 24, "only 8 bit and 24 bit bmp are supported");
+	int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
+
+	RGBQUAD colorTable[256];
+	memset(colorTable, 0, sizeof(colorTable));
 	if (biBitCount == 8)
-	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
-		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
-	}
-	
-	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
+		fread(colorTable, sizeof(RGBQUAD), 256, fp);
+
+	unsigned char* pBmpBuf = (unsigned char *)calloc(lineByte * bmpHeight, sizeof(unsigned char));
+	hypercv_assert(pBmpBuf != NULL, "malloc fail");
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
 	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	// bmp rows are stored bottom up, pixels as blue green red
+	for(int i=0; i<bmpHeight; i++)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		unsigned char* pres = res_data + i*bmpWidth*channels;
+		unsigned char* pbmp = pBmpBuf + (bmpHeight-i-1)*lineByte;
+		for(int j=0; j<bmpWidth; j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			if (biBitCount == 8)
+			{
+				pres[j*channels]     = colorTable[pbmp[j]].rgbRed;
+				pres[j*channels + 1] = colorTable[pbmp[j]].rgbGreen;
+				pres[j*channels + 2] = colorTable[pbmp[j]].rgbBlue;
+			}
+			else
+			{
+				for(int k=0; k<channels; k++)
+					pres[j*channels + k] = pbmp[j*channels + 2-k];
+			}
 		}
 	}
 
-- 
2.43.0


From c150131fb3cf633d98d74c656543cb5b0ffab366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 06/94] fix: smwrite_bmp flipped the caller's image in place,
 leaked its gray expansion and wrote the middle row of odd heights in the
 wrong channel order

---
 modules/core/src/c_src/simplemat.c | 32 ++++++++++--------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a5cceab..bb26693 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -231,35 +231,23 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	// bmp rows are stored bottom up, pixels as blue green red
+	unsigned char* tmp = (unsigned char*)calloc(height, lineByte);
+	hypercv_assert(tmp != NULL, "malloc fail");
+	for(int i=0; i<height; i++)
 	{
+		unsigned char* line = tmp + (height-i-1)*lineByte;
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
+				line[j*channels + k] = imgBuf[i*width*channels + j*channels + 2-k];
 		}
 	}
+	fwrite(tmp, height*lineByte, 1, fp);
+	free(tmp);
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 
 	fclose(fp);
 }
-- 
2.43.0


From 032d281fa976b9a8c82b8ef29da8f27e84ea3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 07/94] fix: simple_mat_grayscale_statistics rejected every
 array because it compared the size of a pointer with 256

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index bb26693..2f0a5b7 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -360,7 +360,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
-- 
2.43.0


From d08e06df4753822c0f40e9c6a0dde16d12f2a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 08/94] fix: grayscale statistics, contrast ratio and entropy
 leaked the gray copy of a colour image

---
 modules/core/src/c_src/simplemat.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 2f0a5b7..9b1db15 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -380,6 +380,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -423,6 +426,10 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	}
 
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
+
 	return res;
 }
 
@@ -439,16 +446,6 @@ float simple_mat_entropy(simple_mat mat)
 
 	int rows = mat->rows;
 	int cols = mat->cols;
-	int channels = mat->channels;
-
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
 
 	float res =0.0;
 
-- 
2.43.0


From 460eb3791ac6770916a8dccea47bde14f6a3f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 09/94] fix: simple_mat_mean and simple_mat_variance read
 signed images as unsigned and returned 0 for unsigned int images

---
 modules/core/src/c_src/simplemat.c | 34 ++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 9b1db15..898bbd8 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -276,16 +276,29 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 		case 12:
 			{
-				unsigned short* data = (unsigned short*) mat->data;
+				unsigned short* data = (unsigned short*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*) mat->data;
+				int* data = (int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 13:
+			{
+				unsigned int* data = (unsigned int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
@@ -326,14 +339,27 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
-				for(int i=0;i<rows*cols;i++)
-					res += pow(mean-data[i],2);
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 3:
+			{
+				int* data = (int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 13:
 			{
 				unsigned int* data = (unsigned int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
-- 
2.43.0


From b2fcc2774f5397feeec0d1bc4df57816e78e74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 10/94] fix: create_2D_struct leaked its data, which
 delete_S_2D never released

---
 modules/core/src/c_src/struct_2D.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..423e9f2 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,13 +15,20 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
-	
+	// header and data share one block, which delete_S_2D releases
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + width * height * sizeof(unsigned char));
+	hypercv_assert(s != NULL ,"fail to build 2d_struct");
+
+	unsigned char * data = (unsigned char*)(s + 1);
+
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
-	
-	return create_2D_struct_with_data(width, height, data);
-	
+
+	s->data = data;
+	s->width = width;
+	s->height = height;
+
+	return s;
 }
 
 /**
-- 
2.43.0


From 4283da37826f21945d551a3e717ba74b3f2496c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 11/94] fix: readhdr took any key starting with "data", such as
 "data ignore value", for the data type

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ca93da3..b41de28 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -109,7 +109,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
 		}
-		else if (cmpstr(item, "data") == 1)
+		else if (cmpstr(item, "data type") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &datatypetemp);
 			*data_type = datatypetemp;
-- 
2.43.0


From f3b7d23392c82815bc07402d8cefafc20c23f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 12/94] fix: readhdr wrote four characters into a three byte
 interleave when the header has no blank after the equals sign

---
 modules/core/src/c_src/hypermat.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index b41de28..aded3cd 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -116,12 +116,8 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(item, "interleave") == 1)
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
-			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
-			}
+			if(sscanf(line, "%*[^=]= %3c", it) == 1)
+				memcpy(interleave, it, 3);
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-- 
2.43.0


From 462c79029ae72f34cde74e0caeefbbeeccb44b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 13/94] fix: reading a header's wavelengths wrote past its
 buffers and read an unterminated string

---
 modules/core/src/c_src/hypermat.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index aded3cd..2017aae 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -38,15 +38,19 @@ int cmpstr(char temp1[],char temp2[])
 // default wavelength charlength < 12
 static void read_wavelength(char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
+	char* tmp = (char*)malloc((MAXWAVECHAR+1)*sizeof(char));
 	for(int i=0;i<MAXWAVECHAR;i++)
 		tmp[i]=' ';
+	tmp[MAXWAVECHAR]='\0';
 	int t = 0;
 	int n = 0;
 	for (int i=0;i<strlen(w);i++)
 	{
 		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
+		{
+			if(t<MAXWAVECHAR)
+				tmp[t++] = w[i];
+		}
 		else
 		{
 			wavelength[n++] = atof(tmp);
@@ -119,21 +123,24 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			if(sscanf(line, "%*[^=]= %3c", it) == 1)
 				memcpy(interleave, it, 3);
 		}
-		else if (cmpstr(line,"wavelength = {")==1)
+		else if (bandtemp>0 && cmpstr(line,"wavelength = {")==1)
 		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
+			long int w_size = (long int)MAXWAVECHAR * bandtemp;
+			char* w = (char*)malloc((w_size + 1)*sizeof(char));
 			char* t_w = w;
 
 			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
 			{
 				for (int i = 0; i < strlen(line); i++)
 				{
-					if (line[i] != '\n')
+					if (line[i] != '\n' && t_w - w < w_size)
 						*t_w++ = line[i];
 				}
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
+			*t_w = '\0';
+			float* wave = (float*)calloc(bandtemp, sizeof(float));
 			read_wavelength(w, wave, bandtemp);
+			free(*wavelength);
 			*wavelength = wave;
 			free(w); w = NULL;
 		}
-- 
2.43.0


From 299bd36513ba6bb34d57bb75afb45fb2b9f5b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 14/94] fix: hmread_with_hdr leaked its buffers, its open file
 on failure, and used uninitialised dimensions when the header lacks a key

---
 modules/core/src/c_src/hypermat.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 2017aae..6777ffb 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -230,8 +230,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
-	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	int samples = 0, lines = 0, bands = 0, data_type = 0;
+	char interleave[4] = "bsq";
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -243,25 +243,28 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
 		return 0;
 	}
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
-	unsigned int elem_size = get_elemsize(data_type);
+	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "unknown data type");
+
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, NULL, wavelength);
+
 	long int data_size = samples * lines * bands;
 
-	void* data = (void *)malloc(data_size * elem_size);
-	hypercv_assert(data != NULL, "malloc fail");
-	
-	fread(data, elem_size, data_size, image_fp);
+	fread(mat->data, elem_size, data_size, image_fp);
 	
 	fclose(image_fp);
 	fclose(hdr_fp);
-	
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
 
-	free(interleave);
+	free(wavelength);
 	
 	return mat;
 }
-- 
2.43.0


From 983ec1e858215900746893deff18c2c916e9ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 15/94] fix: hmread_with_size leaked its buffers and filled the
 wavelengths from uninitialised memory

---
 modules/core/src/c_src/hypermat.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6777ffb..a3bb293 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -293,16 +293,14 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	}
 
 	int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
-
-	void* data = (void *)malloc(data_size * elem_size);
+	hypercv_assert(elem_size > 0, "unknown data type");
 
-	fread(data, elem_size, data_size, image_fp);
-	fclose(image_fp);
+	hyper_mat mat = create_hyper_mat(samples, lines, bands, data_type, interleave);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
+	long int data_size = samples * lines * bands;
 
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	fread(mat->data, elem_size, data_size, image_fp);
+	fclose(image_fp);
 
 	return mat;
 }
-- 
2.43.0


From 8fa55ce06fc12e4e2ae0616a9a69b220824ee33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 16/94] fix: writehdr leaked its path and interleave strings
 and wrote through a NULL file when the header cannot be opened

---
 modules/core/src/c_src/hypermat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index a3bb293..dba8044 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -361,6 +361,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 
 	FILE *fp;
 	fp = fopen(hdr_path, "w");
+	free(hdr_path);
+	hypercv_assert(fp != NULL, "can not open files");
 
 	fputs("ENVI\n", fp);
 	fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -368,7 +370,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	fputs("bands = ", fp); fprintf(fp, "%d\n", bands);
 	fputs("data type = ", fp); fprintf(fp, "%d\n", data_type);
 
-	char* it = (char*)malloc(4*sizeof(char));
+	char it[4];
 	for(int i=0;i<3;i++)
 		it[i] = interleave[i];
 	it[3] = '\0';
-- 
2.43.0


From 6997fbe090d2f4c51c73af1e28994ae37a761bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 17/94] fix: readhdr lost the wavelengths that follow the brace
 on the same line

---
 modules/core/src/c_src/hypermat.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index dba8044..6622e7e 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -123,19 +123,23 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			if(sscanf(line, "%*[^=]= %3c", it) == 1)
 				memcpy(interleave, it, 3);
 		}
-		else if (bandtemp>0 && cmpstr(line,"wavelength = {")==1)
+		else if (bandtemp>0 && strchr(line, '{') != NULL && cmpstr(line,"wavelength = {")==1)
 		{	
 			long int w_size = (long int)MAXWAVECHAR * bandtemp;
 			char* w = (char*)malloc((w_size + 1)*sizeof(char));
 			char* t_w = w;
 
-			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
+			char* text = strchr(line, '{') + 1;
+			while (1)
 			{
-				for (int i = 0; i < strlen(line); i++)
+				for (int i = 0; i < strlen(text); i++)
 				{
-					if (line[i] != '\n' && t_w - w < w_size)
-						*t_w++ = line[i];
+					if (text[i] != '\n' && t_w - w < w_size)
+						*t_w++ = text[i];
 				}
+				if (strchr(text, '}') != NULL || fgets(line, MAXLINE, hdr_fp) == 0)
+					break;
+				text = line;
 			}
 			*t_w = '\0';
 			float* wave = (float*)calloc(bandtemp, sizeof(float));
-- 
2.43.0


From 0498f88a5b1cb015279926f4b072a4effd4f529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 18/94] fix: hyper_mat_get_range read outside the image when
 the range does not lie inside it

---
 modules/process/src/c_src/imageprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..641a416 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -387,6 +387,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 **/
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
+	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0 && end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "range must be inside the hyper mat");
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
 
 	int samples = end_col - start_col;
-- 
2.43.0


From 18bfa0a2890a2ea048418466dd9d3d724c926397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 19/94] fix: simple_mat_2_hyper_mat copied one byte per pixel
 whatever the data type

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 641a416..55de21b 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -536,10 +536,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"simple mat data type unequal to hyper mat");
+
+	int elemsize = get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + (size_t)samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,(size_t)samples*lines*elemsize);
 }
 
 /**
-- 
2.43.0


From b531ceca335d1e3f7e8a08e9a8e9dee363aa30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 20/94] fix: hyper_mat_2_simple_mat wrote outside a smaller
 destination, accepted any band and left channels and element size unset

---
 modules/process/src/c_src/imageprocess.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 55de21b..0729b90 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -510,14 +510,20 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
+	int elemsize = get_elemsize(src_mat->data_type);
+
+	hypercv_assert(band > 0 && band <= src_mat->bands, "band must be in [1, bands]");
+	hypercv_assert((size_t)dst_mat->rows*dst_mat->cols*dst_mat->channels*get_elemsize(dst_mat->data_type) >= (size_t)samples*lines*elemsize, "simple mat is too small for the band");
+
 	dst_mat -> rows = lines;
 	dst_mat -> cols = samples;
 	dst_mat -> data_type = src_mat -> data_type;
+	dst_mat -> channels = 1;
+	dst_mat -> elem_size = elemsize;
     
-	int elemsize = get_elemsize(src_mat->data_type);
-	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
+	char* data = (char*)src_mat->data+((size_t)samples*lines*(band-1)*elemsize);
 
-	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
+	memcpy((char*)dst_mat->data,(char*)data,(size_t)samples*lines*elemsize);
 }
 
 
-- 
2.43.0


From 74deae593cd502da135b20ee4ac354d4e2428757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 21/94] fix: simple_mat_transport moved only the first
 channel's worth of a multi-channel image

---
 modules/process/src/c_src/imageprocess.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 0729b90..7a2385a 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -563,8 +563,10 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	
 	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type, "data size of transport image equal to srcmat ");
 
+	hypercv_assert(res->channels == src->channels, "channels of transport image equal to srcmat");
+
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type);
+	int elemsize = get_elemsize(data_type) * src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
-- 
2.43.0


From 7aac7e9aa469866991fd14a6386aaf22a6cc7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 22/94] fix: simple_mat_addition used the common width as the
 row stride of mats that are wider

---
 modules/process/src/c_src/imageprocess.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 7a2385a..a8ddb45 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -581,7 +581,7 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_mat)
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
-	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
+	hypercv_assert(mat1->channels == mat2->channels&&mat1->channels == dst_mat->channels,"input mat channels error");
 	
 	int rows,cols;
 	int channels = mat1->channels;
@@ -596,6 +596,12 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows>=rows&&dst_mat->cols>=cols,"output mat is too small");
+
+	int cols1 = mat1->cols;
+	int cols2 = mat2->cols;
+	int dst_cols = dst_mat->cols;
+
 	unsigned char* data1 = (unsigned char*)mat1->data;
 	unsigned char* data2 = (unsigned char*)mat2->data;
 	
@@ -604,14 +610,14 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_cols*channels+j*channels+k] = data1[i*cols1*channels+j*channels+k]+data2[i*cols2*channels+j*channels+k];
 
 }
 
 void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_mat)
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
-	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
+	hypercv_assert(mat1->channels == mat2->channels&&mat1->channels == dst_mat->channels,"input mat channels error");
 
 	int rows,cols;
 	int channels = mat1->channels;
@@ -626,6 +632,12 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows>=rows&&dst_mat->cols>=cols,"output mat is too small");
+
+	int cols1 = mat1->cols;
+	int cols2 = mat2->cols;
+	int dst_cols = dst_mat->cols;
+
 	float* data1 = (float*)mat1->data;
 	float* data2 = (float*)mat2->data;
 	float* dst_data = (float*)dst_mat->data;
@@ -633,7 +645,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_cols*channels+j*channels+k] = data1[i*cols1*channels+j*channels+k]+data2[i*cols2*channels+j*channels+k];
 
 }
 
-- 
2.43.0


From 0057912a3560a441f68e7ee5e5ace33e02552fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 23/94] fix: simple_mat_log left all but the first channel's
 worth of a multi-channel image unset

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index a8ddb45..56dbe01 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -652,10 +652,10 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
-	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols, "src mat size == dst_mat size");
+	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	int cols = src_mat->cols * src_mat->channels;
 	
 	float* src_data = (float*)src_mat->data;
 	float* dst_data = (float*)dst_mat->data;
-- 
2.43.0


From 3ac0977dac73cb1bd13cf64bbd71209d6f177251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 24/94] fix: hyper_mat_splicing wrote outside the mat when the
 part does not fit

---
 modules/process/src/c_src/imageprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 56dbe01..2a9e01f 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -668,11 +668,13 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 {
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 
+	hypercv_assert(start_index >= 0 && start_index + (size_t)part->samples*part->lines*part->bands <= (size_t)mat->samples*mat->lines*mat->bands,"part must fit inside the mat");
+
 	int elemsize = get_elemsize(mat->data_type); 
 
-	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
+	unsigned char* mat_data = (unsigned char*)mat->data+(size_t)start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
 
-	memcpy(mat_data, part_data,part->samples*part->lines*part->bands*elemsize);
+	memcpy(mat_data, part_data,(size_t)part->samples*part->lines*part->bands*elemsize);
 }
 
-- 
2.43.0


From 1cb8d70be7c7e2c103763d8803f85a70d60713b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 25/94] fix: relative_radiometric_correction indexed the
 coefficients of a band by the number of bands, not of samples

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..7cfda62 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -24,7 +24,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 		{
 			for (int k = 0; k < bands; k++)
 			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
 			}
 		}
 	}
-- 
2.43.0


From 27888747ad1d27bdf092a7595eb73e9e2899647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 26/94] fix: radiometric corrections dropped the wavelengths
 and read any data type as their own

---
 modules/process/src/c_src/RadiometricCalibration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 7cfda62..598e775 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -12,6 +12,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
 
+	hypercv_assert(bip_mat->data_type == 12, "input mat data_type == unsigned short");
 	unsigned short * bipdata = (unsigned short*)bip_mat->data;
 
 	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
@@ -28,6 +29,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 			}
 		}
 	}
+	hyper_mat_copy_wavelength(bip_mat, res);
 	return res;
 }
 
@@ -43,6 +45,7 @@ hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
 
+	hypercv_assert(bip_mat->data_type == 4, "input mat data_type == float");
 	float* bipdata = (float*)bip_mat->data;
 
 	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
@@ -59,6 +62,7 @@ hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 			}
 		}
 	}
+	hyper_mat_copy_wavelength(bip_mat, res);
 	return res;
 }
 
-- 
2.43.0


From f472660fc274b6635718249210a69169f9f9aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 27/94] fix: conversions from float did not saturate: 127.5
 became -128, short and ushort wrapped, values beyond int saturated at the
 wrong end

---
 modules/process/src/c_src/datatypechange.c | 67 ++++++++++++++++------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..ca36701 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -6,6 +6,18 @@
 
 #include "precomp.h"
 
+// round to nearest, for every float: HYPERCV_ROUND alone gives the smallest int for all that
+// does not fit an int, so that large values would saturate at the wrong end
+static long int round_float(float value)
+{
+	if(value > 4294967296.0f)
+		return 4294967296;
+	else if(value < -4294967296.0f)
+		return -4294967296;
+
+	return lrint(value);
+}
+
 /**
  * @brief      data type change .
  * @param[in]  uc_mat    unsigned char image.
@@ -143,7 +155,16 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i]=HYPERCV_ROUND(fdata[i]);
+	{
+		long int tmp = round_float(fdata[i]);
+
+		if(tmp>2147483647)
+			data[i] = 2147483647;
+		else if(tmp<-2147483648)
+			data[i] = -2147483648;
+		else
+			data[i] = tmp;
+	}
 	
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -167,16 +188,16 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 
 	char* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
+	long int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
+		tmp = round_float(fdata[i]);
 
 		if(tmp>127)
-			data[i] = 128;
-		else if(tmp<-127)
-			data[i] = -127;
+			data[i] = 127;
+		else if(tmp<-128)
+			data[i] = -128;
 		else
 			data[i] = tmp;
 
@@ -204,11 +225,20 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 
 	short* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
+	long int tmp = 0;
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+	{
+		tmp = round_float(fdata[i]);
+
+		if(tmp>32767)
+			data[i] = 32767;
+		else if(tmp<-32768)
+			data[i] = -32768;
+		else
+			data[i] = tmp;
+	}
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -232,12 +262,14 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 
 	unsigned short* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
+	long int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
+		tmp = round_float(fdata[i]);
+		if(tmp>65535)
+			data[i] = 65535;
+		else if(tmp<0)
 			data[i] =0;
 		else
 			data[i] = tmp;
@@ -265,11 +297,11 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 
 	unsigned char* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
+	long int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
+		tmp = round_float(fdata[i]);
 
 		if(tmp>255)
 			data[i] = 255;
@@ -302,11 +334,11 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 
 	unsigned int * data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
+	long int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
+		tmp = round_float(fdata[i]);
 
 		if(tmp>4294967295)
 			data[i] =4294967295;
@@ -379,8 +411,9 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
 	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
+		long int tmp = round_float(src_data[i]);
+		tmp = tmp<=255?tmp:255;
+		dst_data[i] = tmp>=0?tmp:0;
 	}
 	return dst;
 }
-- 
2.43.0


From 910abf5d94c677ce8fe0aea567fead12f715cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 28/94] fix: hypercv_atof dropped the sign before trailing text
 and the sign of exponents

---
 modules/process/src/c_src/datatypechange.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index ca36701..b8e7d6f 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -456,11 +456,12 @@ float hypercv_atof(const char *str)
 			break;
 		}
 		else
-			return integerPart;
+			return sign * integerPart;
 	}
 
 	int decimalDigits = 1;
 	int exponential = 0;    
+	int expSign = 1;
 
 	for (; *p; p++)
 	{
@@ -474,6 +475,8 @@ float hypercv_atof(const char *str)
 			++p;
 			break;
 		}
+		else if (hasE && (*p == '-' || *p == '+') && (p[-1] == 'e' || p[-1] == 'E'))
+			expSign = *p == '-'?-1:1;
 		else if (hasE && isdigit(*p))
 			exponential = 10 * exponential + *p - '0';
 		else break;
@@ -483,7 +486,10 @@ float hypercv_atof(const char *str)
 		for (; *p; p++)
 			if (isdigit(*p))
 				exponential = 10 * exponential + *p - '0';
-	return sign * (integerPart * pow(10, exponential) + decimalPart);
+			else if ((*p == '-' || *p == '+') && (p[-1] == 'e' || p[-1] == 'E'))
+				expSign = *p == '-'?-1:1;
+			else break;
+	return sign * (integerPart * pow(10, expSign * exponential) + decimalPart);
 
 }
 
-- 
2.43.0


From 7ff48ce891da0abedc8d3fb385da306c845d14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 29/94] fix: hypercv_filter2D assigned the destination's data
 type instead of checking it, ignored its size and added to its old contents

---
 modules/process/src/c_src/filter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..af02d7d 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -87,7 +87,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
+	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels,"src size == dst size");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -96,6 +97,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	
 	unsigned char* src_data = (unsigned char*)src->data;
 	float* dst_data = (float*)dst->data;
+
+	// the sums below start from zero
+	memset(dst_data, 0, sizeof(float)*rows*cols*cn);
 	
 	int index_i,index_j;
 	for(int i=0;i<rows;i++)
-- 
2.43.0


From db40f2718f71d3925c29222c57feee78199bbeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 30/94] fix: constant borders read pixel 1 of the row or
 column, outside an image of width or height 1, instead of the constant 0

---
 modules/core/include/c_include/type.h | 2 +-
 modules/process/src/c_src/filter.c    | 9 +++++++++
 modules/process/src/c_src/gradient.c  | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..5ed680c 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -181,7 +181,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = -1; //no pixel, the constant is used
 				break;
 			}
 	}
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index af02d7d..babf5a3 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -119,6 +119,9 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 						index_j = hypercv_border_Interpolate( j+n-k_cols/2, cols, border_type);
 					else
 						index_j = j+n-k_cols/2;
+
+					if (index_i < 0 || index_j < 0)
+						continue;
 			
 					if (cn == 1)
 						dst_data[i*cols+j] += (kernel[m*k_cols+n]*src_data[index_i*cols+index_j]);
@@ -378,6 +381,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index = j+k-border_x;
 				}
 
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 				{
 					sum[0] += (kx_data[k]*src_data[i*src_cols+index]);
@@ -425,6 +431,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index =j+k-border_y;
 				}
 
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 					sum[0] += (ky_data[k]*temp_data[(index)*temp_mat->cols+i]);
 				else if (cn == 3)
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 61638b9..8f1e3fc 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -54,6 +54,9 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 					else
 						index_n = j+n-1;
 
+					if(index_m<0||index_n<0)
+						continue;
+
 					sum += kernel[m][n]*src_data[index_m*cols+index_n];
 				}
 			}
@@ -117,6 +120,9 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 					else
 						index_n = j+n-1;
 
+					if(index_m<0||index_n<0)
+						continue;
+
 					gradx += gx[m][n]*src_data[index_m*cols+index_n];
 					grady += gy[m][n]*src_data[index_m*cols+index_n];
 				}
-- 
2.43.0


From eeab48a59d0e5cd80d268b3bed30f5ae56aebb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 31/94] fix: hypercv_medianblur rejected every image, and its
 median never ended, sorted nothing and saw one row of the window

---
 modules/process/src/c_src/filter.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index babf5a3..4c5f77d 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,19 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static void swap(unsigned char* a,unsigned char* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	unsigned char c = *a;
+	*a = *b;
+	*b = c;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
+	for(int gap = size/2; gap>0; gap/=2)
 		for(int i=gap; i<size; i++)
 			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+				swap(&array[j],&array[j+gap]);
 	return array[size/2]; 
 }
 
@@ -146,8 +146,10 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
-	hypercv_assert(size%2==1,"size should be odd number");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(size>0&&size%2==1,"size should be odd number");
+	hypercv_assert(src_mat->channels == 1&&dst_mat->channels == 1,"only use in gray image");
+	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols,"src size == dst size");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -166,12 +168,13 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+	free(arr);
 }
 
 /**
-- 
2.43.0


From b86a3d44f3dabbd68adc17e6393e4fa0a91b6d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 32/94] fix: hypercv_meanblur rejected every image, averaged a
 diagonal of its window and leaked

---
 modules/process/src/c_src/filter.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 4c5f77d..8ff1656 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -185,7 +185,10 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(size>0&&size%2==1,"size should be odd number");
+	hypercv_assert(src_mat->channels == 1&&dst_mat->channels == 1,"only use in gray image");
+	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols,"src size == dst size");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -193,20 +196,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -size/2;m<=size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -size/2; n<=size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From 53cad50712ffdf675a7b7269c4a341627dfd2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 33/94] fix: gaussian blur leaked its kernels and its row
 buffer, lost the result for a NULL destination and did not check its size

---
 modules/process/src/c_src/filter.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 8ff1656..1c1cbac 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -322,6 +322,9 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -333,10 +336,13 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
  **/
 void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, simple_mat kernel_mat_x, simple_mat kernel_mat_y, int border_type)
 {
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL&&kernel_mat_x!=NULL&&kernel_mat_y!=NULL,"input mat must not be NULL");
+	hypercv_assert(kernel_mat_x->data_type == 4&&kernel_mat_y->data_type == 4,"kernel must be float");
+	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels == dst_mat->channels,"src size == dst size");
+
 	int ksize_width = kernel_mat_x->cols;
 	int ksize_height = kernel_mat_y->cols;
 
-	hypercv_assert(src_mat!=NULL,"input mat must not be NULL");
 	hypercv_assert(ksize_width>=0,"length of kernel_x must >=0");
 	hypercv_assert(ksize_height>=0,"length of kernel_y must >=0");
 	hypercv_assert(border_type == BORDER_REFLECT
@@ -351,8 +357,6 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 	int border_x = ksize_width/2;
 	int border_y = ksize_height/2;
 
-	if(dst_mat == NULL)
-		dst_mat = create_simple_mat(src_mat->rows, src_mat->cols, src_mat->data_type,cn);
 	unsigned char* dst_data =(unsigned char*) dst_mat -> data;
 
 	int src_rows = src_mat->rows;
@@ -469,6 +473,8 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From 2b108dd4ee6a466b18452e08bc9f175e7c21be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 34/94] fix: hypercv_integral did not accumulate the first row
 and column, lost the result for a NULL destination and did not check its size

---
 modules/process/src/c_src/filter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 1c1cbac..00ff18f 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -494,9 +494,8 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	hypercv_assert(data_type == 1,"only use in char");
 	hypercv_assert(channels == 1,"integral use with gray image");
 
-	if(dst == NULL)
-		dst = create_simple_mat(rows,cols,3,1);
-
+	hypercv_assert(dst != NULL,"dst mat cannot be null");
+	hypercv_assert(dst->rows == rows&&dst->cols == cols,"src size == dst size");
 	hypercv_assert(dst->channels == 1&&dst->data_type == 3,"dst mat error");
 
 	unsigned char* src_data = (unsigned char*)src->data;
@@ -506,8 +505,12 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
+			if(i==0&&j==0)
 				dst_data[i*cols+j] = src_data[i*cols+j];
+			else if(i==0)
+				dst_data[i*cols+j] = dst_data[i*cols+j-1] + src_data[i*cols+j];
+			else if(j==0)
+				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + src_data[i*cols+j];
 			else
 				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
 		}
-- 
2.43.0


From 7d2cbcb9f848eef46e793fe2c5abe8ea94ce38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 35/94] fix: hypercv_copy_make_border copied one byte per
 channel whatever the data type

---
 modules/process/src/c_src/filter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 00ff18f..72c63b9 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -549,14 +549,15 @@ simple_mat hypercv_copy_make_border(simple_mat src, int top, int bottom, int lef
 
 	if(border_type == BORDER_CONSTANT)
 	{
+		hypercv_assert(src->data_type == 1,"constant border only use in unsigned char");
 		hypercv_make_const_border(src, dst, top, bottom, left, right, border_type, value);
 		return dst;
 	}
 
 	int dst_rows = dst->rows;
 	int dst_cols = dst->cols;
-	int channels = dst->channels;
 	int elemsize = get_elemsize(dst->data_type);
+	int channels = dst->channels * elemsize; //bytes of a pixel
 	int src_rows = src->rows;
 	int src_cols = src->cols;
 
-- 
2.43.0


From 11bfea158b00bd7ad8e4ac603662301e24434993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 36/94] fix: flips moved one byte per channel whatever the data
 type

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..79e5f9b 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -14,6 +14,8 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"src_mat data type != dst_mat data type");
+	channels *= get_elemsize(src_mat->data_type); //bytes of a pixel
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -33,6 +35,8 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(src_mat->data_type == dst_mat->data_type,"src_mat data type != dst_mat data type");
+	channels *= get_elemsize(src_mat->data_type); //bytes of a pixel
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
-- 
2.43.0


From 5635afecaaa25bad38444cf28487fcb7ca2f70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 37/94] fix: pyramids leaked their images and kernel, and wrote
 outside a destination with fewer channels

---
 modules/process/src/c_src/GeometricTransformation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 79e5f9b..566fc96 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -88,6 +88,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows ==(int)((src_rows+1)/2) && dst->cols==(int)((src_cols+1)/2),"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(data_type == 1 && dst->channels == channels, "only use in unsigned char, dst channels == src channels");
 	
 	simple_mat tmp = create_simple_mat(src_rows,src_cols,data_type,channels);
 
@@ -104,6 +105,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
 	
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -119,6 +121,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows == src_rows*2 && dst->cols== src_cols*2,"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(data_type == 1 && dst->channels == channels, "only use in unsigned char, dst channels == src channels");
 	
 	simple_mat tmp = simple_mat_copy(dst);
 
@@ -152,6 +155,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(tmp);
+	delete_simple_mat(kernel);
 }
 
 
-- 
2.43.0


From 4a24bc42a72e9faf177954161fb0cc13e3e6d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 38/94] fix: hyper_mat_rotate wrote outside its result and
 reordered the caller's image

---
 modules/process/src/c_src/GeometricTransformation.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 566fc96..952eb7f 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -163,9 +163,12 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 
 hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 {
+	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
+
+	hyper_mat bip_mat = hyper_mat_copy(mat);
+	convert2bip(bip_mat);
+	mat = bip_mat;
 
-	if(cmpstr(mat->interleave,"bip")!=1)
-		convert2bip(mat);
 	double theta = angle * PI/180;
 	double c = cos(theta);
 	double s = sin(theta);
@@ -205,6 +208,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 		{
             int x = i * c + j * s + di;
 			int y = j * c - i * s + dj;
+			if(x<0||x>=height||y<0||y>=width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
@@ -213,5 +218,6 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 		}
 
 	}
+	delete_hyper_mat(bip_mat);
 	return dst_mat;
 }
-- 
2.43.0


From ca32fe5cdecdc62645e7ad190fcff3e099eb4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 39/94] fix: otsuThreshold read three channels of a gray image,
 past its end

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..b942f44 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,7 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp = channels == 1 ? data[i*step + j] : data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From 865ceab9a1b6f957b5a91d1be529238e69f0302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 40/94] fix: hypercv_threshold_otsu put the pixels at the
 threshold, which belong to the dark class, in the bright one

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index b942f44..c74e382 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -204,7 +204,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 	for(int i=0;i<rows*cols*channels;i++)
 	{
-		if(src_data[i]<thresh)
+		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
 		else
 			dst_data[i] = 255;
-- 
2.43.0


From 7716c38c9bc0daf711d8126237e78169aa738f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 41/94] fix: erosion and dilation used the number of rows as
 row stride, outside images that are higher than wide, and lost the result for
 a NULL destination

---
 modules/process/src/c_src/morphology.c | 34 ++++++++++++--------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..dcc4027 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -16,7 +16,9 @@
  **/
 void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
-	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat->channels == 1&&mat->data_type == 1,"only use in unsigned char gray image");
+	hypercv_assert(mat->rows == dst_mat->rows&&mat->cols == dst_mat->cols,"src size == dst size");
 	hypercv_assert(s!= NULL, "corrosion kernel cannot be NULL");
 
 	int rows = mat->rows;
@@ -34,9 +36,6 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		return;
 	}	
 
-	if(dst_mat == NULL)
-		dst_mat = simple_mat_copy(mat);
-
 	unsigned char * src = (unsigned char*)mat->data;
 	unsigned char * dst = (unsigned char*)dst_mat->data;
 	unsigned char * sd = (unsigned char*) s->data;
@@ -47,7 +46,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +54,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -80,7 +79,9 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
  **/
 void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 {
-	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat->channels == 1&&mat->data_type == 1,"only use in unsigned char gray image");
+	hypercv_assert(mat->rows == dst_mat->rows&&mat->cols == dst_mat->cols,"src size == dst size");
 	hypercv_assert(s!= NULL, "expend kernel cannot be NULL");
 
 	int rows = mat->rows;
@@ -98,9 +99,6 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		return;
 	}	
 
-	if(dst_mat == NULL)
-		dst_mat = simple_mat_copy(mat);
-
 	unsigned char * src = (unsigned char*)mat->data;
 	unsigned char * dst = (unsigned char*)dst_mat->data;
 	unsigned char * sd = (unsigned char*) s->data;
@@ -111,7 +109,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +117,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From 8f7b80deeff9d7cd8167c73187bee274a1ba0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 42/94] fix: hypercv_expend set the pixels near background
 instead of those near foreground

---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index dcc4027..e9b3b15 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -117,7 +117,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From 7cd26df8feeb2ebe4fe240840067db1fea8df130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 43/94] fix: opening and closing were only their second
 operation: it started from the source and overwrote the first one's result

---
 modules/process/src/c_src/morphology.c | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index e9b3b15..9a2a094 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -152,14 +152,21 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-	if(dst == NULL)
-		dst = simple_mat_copy(src);
+	hypercv_assert(dst != NULL, "output mat cannot be NULL");
+
+	simple_mat res = simple_mat_copy(src);
+	simple_mat tmp = simple_mat_copy(src);
 
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(res,tmp,kernel);
+		hypercv_expend(tmp,res,kernel);
 	}
+
+	hypercv_assert(dst->rows == rows&&dst->cols == cols&&dst->channels == channels&&dst->data_type == data_type, "src size == dst size");
+	memcpy(dst->data, res->data, (size_t)rows*cols*channels*res->elem_size);
+	delete_simple_mat(res);
+	delete_simple_mat(tmp);
 }
 
 /**
@@ -180,14 +187,21 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-	if(dst == NULL)
-		dst = simple_mat_copy(src);
+	hypercv_assert(dst != NULL, "output mat cannot be NULL");
+
+	simple_mat res = simple_mat_copy(src);
+	simple_mat tmp = simple_mat_copy(src);
 
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(res,tmp,kernel);
+	    hypercv_corrosion(tmp,res,kernel);
 	}
+
+	hypercv_assert(dst->rows == rows&&dst->cols == cols&&dst->channels == channels&&dst->data_type == data_type, "src size == dst size");
+	memcpy(dst->data, res->data, (size_t)rows*cols*channels*res->elem_size);
+	delete_simple_mat(res);
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 6763fb9b67a1b6246d749214a9a34c5553902740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 44/94] fix: hypercv_laplacian wrote outside a smaller
 destination and took channels for pixels; hypercv_sobel dereferenced NULL
 mats

---
 modules/process/src/c_src/gradient.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 8f1e3fc..92bd619 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -17,6 +17,8 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 {
 	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(k_size>0,"kernel size > 0");
+	hypercv_assert(src->rows == dst->rows&&src->cols==dst->cols, "src size == dst size");
+	hypercv_assert(src->channels == 1,"laplacian image channels == 1");
 	int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
@@ -77,6 +79,7 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
  **/
 void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_type)
 {
+	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(src->rows == dst->rows&&src->cols==dst->cols, "src size == dst size");
 	hypercv_assert(border_type == BORDER_REFLECT
 			||border_type == BORDER_REFLECT_101
-- 
2.43.0


From 96ef0445e05f9cc2bf4097ea70485757225a47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 45/94] fix: sm_rgb2gray weighted green 0.578 instead of 0.587,
 so that white became 252

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From fca7c48940a778d8d512dbd250b8dcb5deed528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 46/94] fix: spectral_angle_mapper truncated every product to
 an integer

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..832216f 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -93,7 +93,7 @@ float spectral_angle_mapper(float * x, float * y, int length)
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
+		XY += fabs(x[i] * y[i]);
 		X += (x[i])*(x[i]);
 		Y += (y[i])*(y[i]);
 	}
-- 
2.43.0


From e0aaa6f440a910c7ef02cf1f38b78416b1d6854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 47/94] fix: spectral functions read images of smaller elements
 past their end

---
 modules/process/src/c_src/spectralprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 832216f..2e25167 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -41,6 +41,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	hypercv_assert(bip_mat != NULL,                       "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
 	hypercv_assert(spectrum != NULL,                      "spectrum must not be NULL");
+	hypercv_assert(bip_mat->data_type == 4,               "hyper mat data type should be float");
 
 	int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
@@ -155,11 +156,12 @@ float euclidean_distance(float * x, float * y, int length)
  **/
 void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 {
-	hypercv_assert(bip_mat != NULL, "input hyper mat must not be NULL");
+	hypercv_assert(bip_mat != NULL && dst_mat != NULL, "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
 	int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
+	hypercv_assert(bip_mat->data_type == 4, "hyper mat data type should be float");
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
 	hypercv_assert(dst_mat->data_type == 4,"simple mat datatype ==4");
 //todo other data type
@@ -183,13 +185,14 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
  **/
 void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 {
-	hypercv_assert(src_mat != NULL, "input hyper mat must not be NULL");
+	hypercv_assert(src_mat != NULL && dst_mat != NULL, "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(src_mat->interleave, "bsq") == 1, "hyper mat interleave should be bsq");
 	int s_samples = src_mat->samples;
 	int d_samples = dst_mat->samples;
 	int s_lines = src_mat->lines;
 	int d_lines = dst_mat->lines;
 	int bands = src_mat->bands;
+	hypercv_assert(src_mat->data_type == dst_mat->data_type, "data type must equal");
 	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands,"size must equal");
 	char* src =(char*)src_mat->data;
 	char* dst =(char*)dst_mat->data;
-- 
2.43.0


From 78578b910c1259baecdeb682a8a2403a6a4576d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 48/94] fix: read_spectrum_file wrote past the spectrum for
 longer files and never ended on text

---
 modules/process/src/c_src/spectralprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 2e25167..fc1b041 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -116,13 +116,13 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
-	float* spectrum = (float*)malloc(length*sizeof(float));
+	float* spectrum = (float*)calloc(length, sizeof(float));
 
 	float* sp = spectrum;
 
 	float temp = 0;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	while (sp - spectrum < length && fscanf(fp, "%f", &temp) == 1)
 	{
 		*sp = temp;
 		sp++;
-- 
2.43.0


From 8585c925d19a5c1109702a90e68c246dd860ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 49/94] fix: set_wavelet_base accepted every wavelet type

---
 modules/process/src/c_src/dwt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index 90063bc..e07b766 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -118,7 +118,7 @@ void wt_info_free(wt_info* wt_if)
 
 wavelet_base* set_wavelet_base(int wave_type)
 {
-	hypercv_assert(wave_type!=HYPERCV_WAVE_DB3||wave_type!=HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
+	hypercv_assert(wave_type==HYPERCV_WAVE_DB3||wave_type==HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
 	
-- 
2.43.0


From 866ac40a5bdceabc1935d692b24cd18ee6eec3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 50/94] fix: matrix products added to the old contents of their
 output, which cem leaves uninitialised and pca reuses

---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..5eed698 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 7250b1f77f9ad9333ea44f31f186f02ca5cb1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 51/94] fix: matrix_QR_float projected on a constant vector
 instead of the columns of q, and leaked

---
 modules/process/src/c_src/matrixprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 5eed698..8905742 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -261,9 +261,9 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		{
 			r[k*m+j] = 0;
 			for(int i1=0; i1<m;i1++)
-				r[k*m+j]+=col_a[i1];
+				r[k*m+j]+=col_a[i1]*q[i1*m+k];
 			for(int i2=0;i2<m;i2++)
-				col_q[i2] -= r[k*m+j];
+				col_q[i2] -= r[k*m+j]*q[i2*m+k];
 		}
 
 		float tmp = matrix_norm_float(col_q,m);
@@ -271,6 +271,9 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
+
+	free(col_a);
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 9506b08d14c1bb807c9141b557b54d2622a622a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 52/94] fix: cal_eigen_vector_float did not normalise the first
 pivot

---
 modules/process/src/c_src/matrixprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8905742..e80a4ae 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -293,7 +293,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		{
 			float coe = temp[i*n+i];
 			
-			for(int j=1;j<n;j++)
+			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
 			for (int i1 = i + 1; i1 < m; i1++)
-- 
2.43.0


From d95fca2000e8fa5150d0053bdaadd78b1c8b8ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 53/94] fix: hypercv_factorial returned 11! for 10

---
 modules/process/src/c_src/mathprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 412c8ff..103a851 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -6,7 +6,7 @@
  ************************************************************************/
 #include "precomp.h"
 
-static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 39916800};
+static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 3628800};
 /**
  * @brief      calculate the mean value . .
  * @param[in]  t          vector t
-- 
2.43.0


From 443d241142d79b9edede6119790592e0cd02460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 54/94] fix: hypercv_k_means leaked the gray image and stopped
 when centres only move towards the origin

---
 modules/algorithm/src/cluster.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..9f909d2 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -88,7 +88,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
@@ -101,4 +101,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From d09f7ee47bdd34c0b7898edf5a49d02a3ba896b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 55/94] fix: hyper_mat_cem reordered the caller's image

---
 modules/algorithm/src/cem.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..647cf3a 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -15,8 +15,13 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 {
 	hypercv_assert(bsq_mat->data_type == 4           , "input mat data_type is float");
 	
+	hyper_mat copy_mat = NULL;
 	if(cmpstr(bsq_mat->interleave, "bsq") != 1)
-		convert2bsq(bsq_mat);
+	{
+		copy_mat = hyper_mat_copy(bsq_mat);
+		convert2bsq(copy_mat);
+		bsq_mat = copy_mat;
+	}
 		
 	int samples   = bsq_mat -> samples;
 	int lines     = bsq_mat -> lines;
@@ -59,6 +64,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	delete_simple_mat(t);
 	delete_simple_mat(corrmat);
 	delete_simple_mat(invmat);
+	delete_hyper_mat(copy_mat);
 
 	free(fir1);fir1 = NULL;
 	free(fir2);fir2 = NULL;
-- 
2.43.0


From 5aa73f88e84aa9357ab6317817ae6a5c17ff3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 56/94] fix: hyper_mat_cem passed the result of every product
 as its first factor, overwriting the spectrum of the caller

---
 modules/algorithm/src/cem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 647cf3a..54d4aff 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -48,9 +48,9 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -58,7 +58,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From 78e47ac6fc4169991db2267abec47dd0ba220223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 57/94] fix: hyper_mat_pca assigned the data type of the
 caller's image instead of checking it, and leaked

---
 modules/algorithm/src/pca.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..7264c46 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -36,7 +36,8 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
+	hypercv_assert(res_bip_mat->data_type == 4&&res_bip_mat->samples == bip_mat->samples&&res_bip_mat->lines == bip_mat->lines&&res_bip_mat->bands == bip_mat->bands,"res mat size == bip mat size");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
@@ -84,5 +85,6 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	delete_simple_mat(q_mat);
 	delete_simple_mat(temp);
 	delete_simple_mat(eigen_vector);
+	free(evalue);
 
 }
-- 
2.43.0


From 1474bb38d9142dc312aaa9fbd5b8f76c56fa7abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 58/94] fix: cal_edge_signal_energy assigned the channels and
 data type of the caller's image instead of checking them

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 60d13950d4c7931ddf0a91a685cd03add3139172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 59/94] fix: HisEqualization added unscaled counts to scaled
 ones

---
 modules/algorithm/src/HisEqualization.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..17d5a05 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -17,6 +17,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	hypercv_assert(rows==dst_mat->rows&&dst_mat->cols==cols,"input mat size equal");
+	hypercv_assert(src_mat->data_type==1&&dst_mat->data_type==1&&src_mat->channels==1&&dst_mat->channels==1,"only use in unsigned char gray image");
 
 	unsigned char* data = (unsigned char*) src_mat ->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat ->data;
@@ -27,10 +28,10 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
-	{
 		hist[i] += hist[i-1];
-		hist[i] = hist[i]*255/(rows*cols);
-	}
+
+	for(int i=0; i<256; i++)
+		hist[i] = (long int)hist[i]*255/(rows*cols);
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From d0fc49a004874d9c229ab3c2418c0001fcdf464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 60/94] fix: hyper_mat_linear_tension read any data type as
 float and took 0 for the maximum of negative bands

---
 modules/algorithm/src/HisEqualization.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 17d5a05..7ebc34e 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -39,7 +39,9 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 
 void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 {
+	hypercv_assert(bsq_mat!=NULL&&dst_mat!=NULL,"input mat could not be NULL");
 	hypercv_assert(cmpstr(bsq_mat->interleave,"bsq")==1,"input src mat must be bsq");
+	hypercv_assert(bsq_mat->data_type == 4,"input src mat must be float");
 	int samples = bsq_mat -> samples;
 	int lines = bsq_mat -> lines;
 	int bands = bsq_mat -> bands;
@@ -54,8 +56,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = srcdata[k*samples*lines];
+		mindata = maxdata;
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
-- 
2.43.0


From 83fe2c108c38d21c4c2296bb28b2ef7aedc14b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 61/94] fix: hypercv_normalize_float rounded its float results
 to 0-255

---
 modules/algorithm/src/normalize.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..65ae52c 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -100,7 +100,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] = (src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,16 +108,16 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = (src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = (src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
@@ -131,7 +131,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = ((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
 
-- 
2.43.0


From 8347e23c382346d4c03c2aff1d040c4a68ea5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 62/94] fix: normalisation wrote outside a destination of
 smaller elements and skipped all but the first channel's worth

---
 modules/algorithm/src/normalize.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 65ae52c..4fd3791 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -30,8 +30,9 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->data_type==src->data_type&&dst->channels==src->channels,"src type == dst type");
 	int rows = src->rows;
-	int cols = src->cols;
+	int cols = src->cols * src->channels;
 	int data_type = src->data_type;
 	int channels = src->channels;
 
@@ -85,8 +86,9 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->data_type==src->data_type&&dst->channels==src->channels,"src type == dst type");
 	int rows = src->rows;
-	int cols = src->cols;
+	int cols = src->cols * src->channels;
 	int data_type = src->data_type;
 	int channels = src->channels;
 
-- 
2.43.0


From 2350a2c60a92b2d618af4b09d4109263b025e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 63/94] fix: shape matching leaked its moments

---
 modules/algorithm/src/shapematch.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..d3be484 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -23,9 +23,7 @@ static double calc_similar_hu(double* hu1, double* hu2)
 
 void calc_hu_moment(double* hu,simple_mat mat)
 {
-	if(hu==NULL)
-		hu = (double*)malloc(7*sizeof(double));
-
+	hypercv_assert(hu!=NULL,"output array cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 
 	int cols = mat->cols;
@@ -114,6 +112,9 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From db824eef610512957c623a64a23c76d763c11b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 64/94] fix: hypercv_magnitude read the wrong, out of range,
 imaginary part

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From 5658b420f686b5b0e8b0a0a83af19929f4bbdb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 65/94] fix: the inverse transform divided by the root of the
 size, so that it did not invert hypercv_dft

---
 modules/algorithm/src/dft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..ab2a60d 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -189,7 +189,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
@@ -222,7 +222,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
-- 
2.43.0


From 2437980b7a845a13ee077176a96cd79e75ce8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 66/94] fix: hypercv_idft_ushort cut unsigned short images at
 255

---
 modules/algorithm/src/dft.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index ab2a60d..abc240b 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -222,7 +222,13 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
+			real = real / (rows*cols);
+			if(real>65535)
+				dst_data[i*cols+j] = 65535;
+			else if(real<0)
+				dst_data[i*cols+j] = 0;
+			else
+				dst_data[i*cols+j] = HYPERCV_ROUND(real);
 		}
 	}
 }
-- 
2.43.0


From 42d2ce90494d52c9f1d85b5a66435433bf8f17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 67/94] fix: draw_POINT exchanged red and blue

---
 modules/highgui/src/draw.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..76a8643 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -31,9 +31,9 @@ void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num,
 				{
 					if(channels == 3)
 					{
-						dst_data[(y+j)*cols*channels+(x+i)*channels] = color.b;	
+						dst_data[(y+j)*cols*channels+(x+i)*channels] = color.r;	
 						dst_data[(y+j)*cols*channels+(x+i)*channels+1] = color.g;
-						dst_data[(y+j)*cols*channels+(x+i)*channels+2] = color.r;
+						dst_data[(y+j)*cols*channels+(x+i)*channels+2] = color.b;
 					}
 					else if(channels == 1)
 						dst_data[(y+j)*cols+(x+i)] = color.r;	
-- 
2.43.0


From 62f7a2393fb49c75d6360b71fd93d6a584766992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 68/94] fix: draw_line inverted the slope, divided by zero for
 flat lines and drew nothing on gray images

---
 modules/highgui/src/draw.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index 76a8643..a67557e 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,14 +59,14 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
+	float k = pt2.x!=pt1.x ? (float)(pt2.y-pt1.y)/(pt2.x-pt1.x) : 0;
 	float b = (float)pt1.y-k*pt1.x;
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==(int)(j*k+b+0.5))
+			if(pt2.x!=pt1.x ? i==(int)(j*k+b+0.5) : j==pt1.x)
 			{
 				for(int t=-thickness/2;t<=thickness/2;t++)
 				{
@@ -79,7 +79,7 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
 						}
 						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
+							dst_data[i*cols+(j+t)] = color.r;
 					}
 				}
 			}
-- 
2.43.0


From f80580e2c20f5e8760211e195c74521c3e17f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 69/94] fix: hyper_mat_pca: iterate A = R*Q, since Q*R only
 rebuilds A and never converges to the eigenvalues

---
 modules/algorithm/src/pca.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 7264c46..5999914 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -56,7 +56,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	for(int i=0;i<iteration;i++)//迭代qr分解
 	{
 		matrix_QR_float((float*)temp->data,(float*)q_mat->data,(float*)r_mat->data,bands);
-		MulMatrix_float((float*)q_mat->data,(float*)r_mat->data,(float*)temp->data,bands,bands,bands);
+		MulMatrix_float((float*)r_mat->data,(float*)q_mat->data,(float*)temp->data,bands,bands,bands);
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
-- 
2.43.0


From ee8ea29b1a9c991d6922bdcc593b5fafa3b257f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 70/94] fix: wavelet_base_free: test the filter it releases
 (HI_R was released only if HI_D was set)

---
 modules/process/src/c_src/dwt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index e07b766..e1dea83 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -97,7 +97,7 @@ void wavelet_base_free(wavelet_base* wb)
 			free(wb->HI_D);
 		if(wb->LO_R!=NULL)
 			free(wb->LO_R);
-		if(wb->HI_D!=NULL)
+		if(wb->HI_R!=NULL)
 			free(wb->HI_R);
 		free(wb);
 	}
-- 
2.43.0


From 600024d15945c079d15f5be7bb5ae7e440c3deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 71/94] fix: vector_init: did not compile (missing semicolon)
 and tested the vector the wrong way round

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..5368492 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -164,9 +164,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From f557e9cda5a610bd9fb446130e5051537de45d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 72/94] fix: a default constructed HyMat is empty instead of
 asserting on members nobody initialised

---
 modules/core/include/cxx_include/hypermat.hpp | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..30dc0e5 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -27,19 +27,19 @@ namespace hypercv
 			/* 
 			 * HYPER_MAT 
 			 * */
-			int          lines;
-			int          samples;
-			int          bands;
-			int          dataType;
-			int          format;
+			int          lines    = 0;
+			int          samples  = 0;
+			int          bands    = 0;
+			int          dataType = 0;
+			int          format   = HYPERCV_BSQ;
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
-			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			char         interleave[3] = {'b', 's', 'q'};
+			void*        data       = NULL;
+			float*       wavelength = NULL;
 
-			int          elemSize;
-			long int     dataSize;
+			int          elemSize   = 0;
+			long int     dataSize   = 0;
 
 			HyMat();
 
@@ -82,7 +82,7 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
+		//an empty mat, see create()
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
-- 
2.43.0


From b01410463b812afb0ccff1d41c8ae3dc715e3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 73/94] fix: HyMat checks the size, type and format it is
 given, not its previous ones

---
 modules/core/include/cxx_include/hypermat.hpp | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 30dc0e5..3af87b0 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -121,17 +121,17 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
@@ -327,17 +327,17 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
 			release();
@@ -360,7 +360,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
-- 
2.43.0


From 8e50d44e176ec1e1ba57fc54f583d2dda15c504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 74/94] fix: HyMat::open reads dataSize bytes, not dataSize
 elements; release leaves no data size behind

---
 modules/core/include/cxx_include/hypermat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 3af87b0..15af84c 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -321,7 +321,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 	}
 
@@ -353,7 +353,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 
 	}
@@ -449,6 +449,7 @@ namespace hypercv
 		data = NULL;
 		wavelength = NULL;
 		samples = lines = bands = dataType = 0;
+		dataSize = 0;
 
 	}
 
-- 
2.43.0


From 0ce0e52519a0ad421d0c11bea49a7911a1885f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 75/94] fix: HyMat::range rejects a window that leaves the mat

---
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 15af84c..1e10b3a 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -475,6 +475,7 @@ namespace hypercv
 
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
+		hypercv_assert(startCol>=0 && startRow>=0 && startBand>=0 && endCol<=samples && endRow<=lines && endBand<=bands, "range must be inside the hyper mat");
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
 
 		int newSamples = endCol - startCol;
-- 
2.43.0


From 0049c8b05341cbfad02ab9af6a3066a7088afbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 76/94] fix: HyMat writes its header to <name>.hdr next to the
 image

---
 modules/core/include/cxx_include/hypermat.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 1e10b3a..8ed3f1f 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -265,10 +265,19 @@ namespace hypercv
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		size_t dot = path.rfind('.');
+		size_t slash = path.rfind('/');
+		if(dot != std::string::npos && (slash == std::string::npos || dot > slash))
+			path = path.substr(0, dot);
+		path += ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
+		if(fp == NULL)
+		{
+			printf("can not open files\n");
+			return;
+		}
 
 		fputs("ENVI\n", fp);
 		fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
-- 
2.43.0


From 1f5b03d264c84b859497fa0fa6115833c0188cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 77/94] fix: HyMat::save closes the GDAL data set it creates

---
 modules/core/include/cxx_include/hypermat.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 8ed3f1f..1a48506 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -244,6 +244,8 @@ namespace hypercv
 
 		char** papszOptions = NULL;
 		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
+		if(dataSet != NULL)
+			GDALClose(dataSet); //the files are written below
 
 		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
 		//todo	
@@ -253,8 +255,8 @@ namespace hypercv
 		_fp = fopen(filePath, "wb");
 		if(_fp == NULL)
 		{
-			return;
 			printf("can not open files\n");
+			return;
 		}
 		fwrite(data, elemSize, samples * lines * bands, _fp);
 		this->writeHdr(filePath);
-- 
2.43.0


From 42f34ad115674ad7cdbdc8f303453097bd9f775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 78/94] fix: the C++ header reader no longer writes through a
 null wavelength, splits the list at its commas and takes the type from its
 own key

---
 modules/core/include/cxx_include/hypermat.hpp | 13 +++++-------
 modules/core/src/cxx_src/hypermat.cpp         | 20 +++++++++++--------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 1a48506..ad7b159 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -313,15 +313,12 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
-
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
+		//the size first, then the wavelength of each band
+		int _samples = 0, _lines = 0, _bands = 0, _dataType = 0;
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, NULL);
 
-		create();
+		create(_samples, _lines, _bands, _dataType, format);
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
 
 		FILE* _fp = NULL;
 		_fp = fopen(imagePath, "r");
diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..ddf087c 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -62,8 +62,10 @@ namespace hypercv
 		while (getline(file,lineBuff))
 		{  
 			const char* line = lineBuff.c_str();
-			char item[20];
-			sscanf(line, "%[^=]", item);
+			char item[20] = "";
+			sscanf(line, "%19[^=]", item);
+			if(item[0] == '\0')
+				continue;
 
 			if (cmpstr(item, (char*)"samples") == 1)
 				sscanf(line, "%*[^=]=%d",&samples);
@@ -74,7 +76,7 @@ namespace hypercv
 			else if (cmpstr(item, (char*)"bands") == 1)
 				sscanf(line, "%*[^=]=%d", &bands);
 
-			else if (cmpstr(item, (char*)"data") == 1)
+			else if (cmpstr(item, (char*)"data type") == 1)
 				sscanf(line, "%*[^=]=%d", &dataType);
 
 			else if (lineBuff.find("interleave")!=lineBuff.npos)
@@ -96,15 +98,17 @@ namespace hypercv
 
 					startIndex = lineBuff.find('{')==lineBuff.npos?0:lineBuff.find('{')+1;
 					endIndex = lineBuff.find('}')==lineBuff.npos?lineBuff.size():lineBuff.find('}');
-					waveBuff += lineBuff.substr(startIndex,endIndex);
+					waveBuff += lineBuff.substr(startIndex,endIndex-startIndex) + " ";
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
+				if(wavelength == NULL)
+					continue;
+				for(size_t i=0;i<waveBuff.size();i++)
+					if(waveBuff[i] == ',')
+						waveBuff[i] = ' ';
 				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
-				{
-					ss>>s;
+				for(int i=0;i<bands&&ss>>s;i++)
 					wavelength[i] = atof(s.c_str());
-				}
 
 			}
 		}
-- 
2.43.0


From 4091753b457c2a3d639bf37ac20670baee6d60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 79/94] fix: simple_mat_resize checks its images before reading
 them

---
 modules/process/src/c_src/hypercvresize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/hypercvresize.c b/modules/process/src/c_src/hypercvresize.c
index 61951d3..13667bf 100644
--- a/modules/process/src/c_src/hypercvresize.c
+++ b/modules/process/src/c_src/hypercvresize.c
@@ -8,13 +8,13 @@
 
 void simple_mat_resize(simple_mat src_mat, simple_mat dst_mat, int flag)
 {
+    hypercv_assert(src_mat != NULL && dst_mat != NULL, "The source mat or the destination mat must not be null!");
     int src_datatype = src_mat -> data_type;
     int dst_datatype = dst_mat -> data_type;
     int src_rows = src_mat -> rows;
     int src_cols = src_mat -> cols;
     int dst_rows = dst_mat -> rows;
     int dst_cols = dst_mat -> cols;
-    hypercv_assert(src_mat != NULL && dst_mat != NULL, "The source mat or the destination mat must not be null!");
     hypercv_assert(src_datatype == dst_datatype, "The source mat's type and the destination map's type must be the same!");
 }
 
-- 
2.43.0


From a3ade123d43a502eafef61040f9c5522560d6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 80/94] fix: the blurs and filter2D reject images that are not
 unsigned char

---
 modules/process/src/c_src/filter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 72c63b9..d45d749 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -88,6 +88,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
 	hypercv_assert(dst->data_type == 4,"dst data_type == float");
+	hypercv_assert(src->data_type == 1,"src data_type == unsigned char");
+	hypercv_assert(src->channels == 1 || src->channels == 3,"src channels equal 1 or 3");
 	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels,"src size == dst size");
 
 	int rows = src->rows;
@@ -149,6 +151,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size>0&&size%2==1,"size should be odd number");
 	hypercv_assert(src_mat->channels == 1&&dst_mat->channels == 1,"only use in gray image");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"only use in unsigned char image");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols,"src size == dst size");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -188,6 +191,7 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size>0&&size%2==1,"size should be odd number");
 	hypercv_assert(src_mat->channels == 1&&dst_mat->channels == 1,"only use in gray image");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"only use in unsigned char image");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols,"src size == dst size");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -339,6 +343,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL&&kernel_mat_x!=NULL&&kernel_mat_y!=NULL,"input mat must not be NULL");
 	hypercv_assert(kernel_mat_x->data_type == 4&&kernel_mat_y->data_type == 4,"kernel must be float");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels == dst_mat->channels,"src size == dst size");
+	hypercv_assert(src_mat->data_type == 1&&dst_mat->data_type == 1,"only use in unsigned char image");
 
 	int ksize_width = kernel_mat_x->cols;
 	int ksize_height = kernel_mat_y->cols;
-- 
2.43.0


From 4df1491dfbd5ffedc6a1ec9817abf3fc59924dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 81/94] fix: sobel and laplacian reject images that are not
 unsigned char gray

---
 modules/process/src/c_src/gradient.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 92bd619..0550c38 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -19,6 +19,7 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 	hypercv_assert(k_size>0,"kernel size > 0");
 	hypercv_assert(src->rows == dst->rows&&src->cols==dst->cols, "src size == dst size");
 	hypercv_assert(src->channels == 1,"laplacian image channels == 1");
+	hypercv_assert(dst->channels == 1&&src->data_type == 1&&dst->data_type == 1,"only use in unsigned char gray image");
 	int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
@@ -87,6 +88,7 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 			||border_type == BORDER_WRAP
 			||border_type == BORDER_CONSTANT ,"Unknown/unsupported border type" );
 	hypercv_assert(src->channels == 1,"sobel image channels == 1")
+	hypercv_assert(dst->channels == 1&&src->data_type == 1&&dst->data_type == 1,"only use in unsigned char gray image");
 
 	int rows = src->rows;
 	int cols = src->cols;
-- 
2.43.0


From 41e437a3317a43ceb350f4e6e99b5d1c9249d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 82/94] fix: thresholding rejects destinations that are not
 unsigned char

---
 modules/process/src/c_src/threshold.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index c74e382..7f6dd84 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -8,6 +8,7 @@
 
 int otsuThreshold(simple_mat img)
 {
+	hypercv_assert(img!=NULL&&img->data_type == 1&&(img->channels == 1||img->channels == 3),"only use in unsigned char image");
 	
 	int Threshold = 0;//阈值
 	int height = img->rows;
@@ -75,6 +76,7 @@ void hypercv_threshold_binary(simple_mat src_mat, simple_mat dst_mat, int thresh
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
 	hypercv_assert(src_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
+	hypercv_assert(dst_mat->data_type == 1,"dst_mat data_type == unsigned char");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -98,6 +100,7 @@ void hypercv_threshold_binary_inv(simple_mat src_mat, simple_mat dst_mat, int th
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
 	hypercv_assert(src_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
+	hypercv_assert(dst_mat->data_type == 1,"dst_mat data_type == unsigned char");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -121,6 +124,7 @@ void hypercv_threshold_trunc(simple_mat src_mat, simple_mat dst_mat, int thresh,
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
 	hypercv_assert(src_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
+	hypercv_assert(dst_mat->data_type == 1,"dst_mat data_type == unsigned char");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -144,6 +148,7 @@ void hypercv_threshold_tozero(simple_mat src_mat, simple_mat dst_mat, int thresh
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
 	hypercv_assert(src_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
+	hypercv_assert(dst_mat->data_type == 1,"dst_mat data_type == unsigned char");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -167,6 +172,7 @@ void hypercv_threshold_tozero_inv(simple_mat src_mat, simple_mat dst_mat, int th
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
 	hypercv_assert(src_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
+	hypercv_assert(dst_mat->data_type == 1,"dst_mat data_type == unsigned char");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -192,6 +198,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols==dst_mat->cols&&src_mat->channels==dst_mat->channels,"src_mat & dst_mat size equal");
 	hypercv_assert(src_mat->data_type == 1,"0-255");
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
+	hypercv_assert(dst_mat->data_type == 1,"dst_mat data_type == unsigned char");
 
 
 	int rows = src_mat->rows;
-- 
2.43.0


From a1c4bd3605a5c619c5e985d1682bd7ffe8362d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 83/94] fix: erosion and dilation reject destinations that are
 not unsigned char gray

---
 modules/process/src/c_src/morphology.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 9a2a094..c368f7e 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -19,6 +19,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 	hypercv_assert(mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(mat->channels == 1&&mat->data_type == 1,"only use in unsigned char gray image");
 	hypercv_assert(mat->rows == dst_mat->rows&&mat->cols == dst_mat->cols,"src size == dst size");
+	hypercv_assert(dst_mat->channels == 1&&dst_mat->data_type == 1,"dst is unsigned char gray image");
 	hypercv_assert(s!= NULL, "corrosion kernel cannot be NULL");
 
 	int rows = mat->rows;
@@ -82,6 +83,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 	hypercv_assert(mat!=NULL&&dst_mat!=NULL,"input mat cannot be NULL");
 	hypercv_assert(mat->channels == 1&&mat->data_type == 1,"only use in unsigned char gray image");
 	hypercv_assert(mat->rows == dst_mat->rows&&mat->cols == dst_mat->cols,"src size == dst size");
+	hypercv_assert(dst_mat->channels == 1&&dst_mat->data_type == 1,"dst is unsigned char gray image");
 	hypercv_assert(s!= NULL, "expend kernel cannot be NULL");
 
 	int rows = mat->rows;
-- 
2.43.0


From 977720f61c0f3ae9228783672a22e59ff919b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 84/94] fix: the colour conversions reject images that are not
 unsigned char

---
 modules/process/src/c_src/colortransform.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 5b5b139..7483f4f 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -46,6 +46,7 @@ simple_mat hypercv_colortransform(simple_mat src_mat, int method)
 simple_mat sm_binary2rgb(simple_mat binary_image)
 {
 	hypercv_assert(binary_image->channels == 1,"input binary_image channels == 1");
+	hypercv_assert(binary_image->data_type == 1,"input binary_image data type == 1");
 
 	int rows = binary_image -> rows;
 	int cols = binary_image -> cols;
@@ -72,6 +73,7 @@ simple_mat sm_binary2rgb(simple_mat binary_image)
 simple_mat sm_gray2rgb(simple_mat gray_image)
 {	
 	hypercv_assert(gray_image->channels == 1,"input gray image channels == 1");
+	hypercv_assert(gray_image->data_type == 1,"input gray image data type == 1");
 
 	int rows = gray_image -> rows;
 	int cols = gray_image -> cols;
@@ -98,6 +100,7 @@ simple_mat sm_gray2rgb(simple_mat gray_image)
 simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 {
 	hypercv_assert(rgb_image->channels == 3,"input rgb_image channels == 3");
+	hypercv_assert(rgb_image->data_type == 1,"input rgb_image data type == 1");
 
 	int rows = rgb_image -> rows;
 	int cols = rgb_image -> cols;
@@ -151,6 +154,7 @@ void sm_bgr2rgb(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
 	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(dst_mat->data_type == 1, "output mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 	hypercv_assert(src_mat->channels == 3,"input mat channels == 3");
 
-- 
2.43.0


From 49dce9020ab6a16a6dbc8b1f0724edf3e5c02d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 85/94] fix: image addition and band import reject images of
 another type or channel count

---
 modules/process/src/c_src/imageprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 2a9e01f..86c6b53 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -543,6 +543,7 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
 	hypercv_assert(src_mat->data_type == dst_mat->data_type,"simple mat data type unequal to hyper mat");
+	hypercv_assert(src_mat->channels == 1,"simple mat must have one channel");
 
 	int elemsize = get_elemsize(dst_mat->data_type);
 	char* dst = (char*)dst_mat->data + (size_t)samples*lines*(band-1)*elemsize;
@@ -582,6 +583,7 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
 	hypercv_assert(mat1->channels == mat2->channels&&mat1->channels == dst_mat->channels,"input mat channels error");
+	hypercv_assert(mat1->data_type == 1&&mat2->data_type == 1&&dst_mat->data_type == 1,"only use in unsigned char image");
 	
 	int rows,cols;
 	int channels = mat1->channels;
@@ -618,6 +620,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
 	hypercv_assert(mat1->channels == mat2->channels&&mat1->channels == dst_mat->channels,"input mat channels error");
+	hypercv_assert(mat1->data_type == 4&&mat2->data_type == 4&&dst_mat->data_type == 4,"only use in float image");
 
 	int rows,cols;
 	int channels = mat1->channels;
-- 
2.43.0


From acbdeb9e493f69d8afb6d5f59a115d600329745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 86/94] fix: drawing rejects images it cannot colour

---
 modules/highgui/src/draw.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index a67557e..61bdef3 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -9,6 +9,8 @@ void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num,
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
 	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(dst_mat->data_type == 1, "output mat data type == 1");
+	hypercv_assert(src_mat->channels == 1||src_mat->channels == 3, "input mat channels == 1 or 3");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows = src_mat->rows;
@@ -48,6 +50,8 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 {
 	hypercv_assert(src_mat!=NULL&&dst_mat !=NULL, "input mat cannot be NULL");
 	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
+	hypercv_assert(dst_mat->data_type == 1, "output mat data type == 1");
+	hypercv_assert(src_mat->channels == 1||src_mat->channels == 3, "input mat channels == 1 or 3");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows,cols;
-- 
2.43.0


From 0ffc0130425279853209d3b64e54f55c21fab800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 87/94] fix: clustering rejects images that are not unsigned
 char

---
 modules/algorithm/src/cluster.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 9f909d2..72cf270 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -24,6 +24,7 @@ static int distance(POINT p, int i,int j)
 void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 {
 	hypercv_assert(src != NULL            , "INPUT MAT CANNOT BE Null");
+	hypercv_assert(src->data_type == 1       , "only use in unsigned char image");
 	hypercv_assert(kind >= 1              , "kind must >=1");
 	hypercv_assert(vector_size(v1) == kind, "input point vector size == kind");
 
-- 
2.43.0


From 9e0e025176edab0cac5eb1776ed0c8a15f406b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 88/94] fix: the Fourier routines reject types and channel
 counts they cannot process

---
 modules/algorithm/src/dft.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index abc240b..e7ba267 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -35,6 +35,8 @@ void hypercv_dft(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 		hypercv_dft_uchar(src, re_mat, im_mat);
 	else if (src->data_type == 12)
 		hypercv_dft_ushort(src, re_mat, im_mat);
+	else
+		hypercv_assert(0,"src data_type == unsigned char or unsigned short");
 
 }
 
@@ -44,6 +46,7 @@ void hypercv_dft_uchar(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 1,"src data_type == unsigned char");
 
 	float re,im,temp;
 
@@ -81,6 +84,7 @@ void hypercv_dft_ushort(simple_mat src, simple_mat re_mat, simple_mat im_mat)
 	hypercv_assert(src->rows == re_mat->rows&&src->rows == im_mat->rows&&src->cols == re_mat->cols&&src->cols == im_mat->cols,"src,im,re mat size equal");
 	hypercv_assert(re_mat->data_type == 4&&im_mat->data_type == 4,"re_mat and im_mat data_type ==4");
 	hypercv_assert(src->channels == re_mat->channels&&src->channels == im_mat->channels&&src->channels == 1,"only gray image");
+	hypercv_assert(src->data_type == 12,"src data_type == unsigned short");
 
 	float re,im,temp;
 
@@ -120,6 +124,7 @@ void hypercv_dft_frespectrum(simple_mat src, simple_mat dst)
 	hypercv_assert(dst!=NULL, "OUTPUT MAT CAN NOT BE Null");
 
 	hypercv_assert(src->rows == dst->rows&&src->cols == dst->cols,"SIZE ERROR");
+	hypercv_assert(src->data_type == 1&&dst->data_type == 1&&src->channels == 1&&dst->channels == 1,"only use in unsigned char gray image");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -160,6 +165,8 @@ void hypercv_idft(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
 		hypercv_idft_uchar(re_mat, im_mat, dst_mat);
 	else if(dst_mat->data_type == 12)
 		hypercv_idft_ushort(re_mat, im_mat, dst_mat);
+	else
+		hypercv_assert(0,"dst data_type == unsigned char or unsigned short");
 }
 
 void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat)
@@ -167,6 +174,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 1,"output mat is gray image");
+	hypercv_assert(re_mat->channels == 1&&im_mat->channels == 1&&dst_mat->channels == 1,"only gray image");
 
 	int rows = re_mat->rows;
 	int cols = re_mat->cols;
@@ -199,6 +207,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 12,"output mat is gray image");
+	hypercv_assert(re_mat->channels == 1&&im_mat->channels == 1&&dst_mat->channels == 1,"only gray image");
 
 	int rows = re_mat->rows;
 	int cols = re_mat->cols;
@@ -238,6 +247,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	hypercv_assert(re_mat->rows==im_mat->rows&&re_mat->rows==dst_mat->rows&&re_mat->cols == im_mat->cols&&re_mat->cols == dst_mat->cols,"INPUT MAT SIZE ERROR");
 	hypercv_assert(re_mat->data_type == im_mat->data_type&&re_mat->data_type == 4,"re and im mat data_type == 4");
 	hypercv_assert(dst_mat->data_type == 4,"output mat is float image");
+	hypercv_assert(re_mat->channels == 1&&im_mat->channels == 1&&dst_mat->channels == 1,"only gray image");
 
 	int cols = re_mat->cols;
 	int rows = re_mat->rows;
-- 
2.43.0


From 891f70064003daa5944494f88fe3445230bd07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 89/94] fix: normalisation rejects types and norms it does not
 know

---
 modules/algorithm/src/normalize.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 4fd3791..07e4d27 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -24,6 +24,8 @@ void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta,
 		hypercv_normalize_uchar(src, dst, alpha, beta, norm_type);
 	else if(src->data_type == 4) 
 		hypercv_normalize_float(src, dst, alpha, beta, norm_type);
+	else
+		hypercv_assert(0,"src data_type == unsigned char or float");
 }
 
 void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
@@ -31,6 +33,8 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
 	hypercv_assert(dst->data_type==src->data_type&&dst->channels==src->channels,"src type == dst type");
+	hypercv_assert(src->data_type == 1,"only use in unsigned char image");
+	hypercv_assert(norm_type == NORM_L1||norm_type == NORM_L2||norm_type == NORM_INF||norm_type == NORM_MINMAX,"norm type error");
 	int rows = src->rows;
 	int cols = src->cols * src->channels;
 	int data_type = src->data_type;
@@ -87,6 +91,8 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
 	hypercv_assert(dst->data_type==src->data_type&&dst->channels==src->channels,"src type == dst type");
+	hypercv_assert(src->data_type == 4,"only use in float image");
+	hypercv_assert(norm_type == NORM_L1||norm_type == NORM_L2||norm_type == NORM_INF||norm_type == NORM_MINMAX,"norm type error");
 	int rows = src->rows;
 	int cols = src->cols * src->channels;
 	int data_type = src->data_type;
-- 
2.43.0


From d96530f899419bdc885ffe9b7f27d090f43c4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 90/94] fix: radiometric correction rejects cubes that are not
 pixel interleaved

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 598e775..fb7a3dd 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -13,6 +13,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 	int bands = bip_mat->bands;
 
 	hypercv_assert(bip_mat->data_type == 12, "input mat data_type == unsigned short");
+	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1, "input mat interleave == bip");
 	unsigned short * bipdata = (unsigned short*)bip_mat->data;
 
 	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
@@ -46,6 +47,7 @@ hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 	int bands = bip_mat->bands;
 
 	hypercv_assert(bip_mat->data_type == 4, "input mat data_type == float");
+	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1, "input mat interleave == bip");
 	float* bipdata = (float*)bip_mat->data;
 
 	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
-- 
2.43.0


From d7f4967939be77697eaf3e0d7424c6c30714ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 91/94] fix: cube means and Hu moments reject images of another
 type or channel count

---
 modules/algorithm/src/shapematch.c          | 1 +
 modules/process/src/c_src/spectralprocess.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index d3be484..873ce91 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -25,6 +25,7 @@ void calc_hu_moment(double* hu,simple_mat mat)
 {
 	hypercv_assert(hu!=NULL,"output array cannot be NULL");
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
+	hypercv_assert(mat->data_type == 1&&mat->channels == 1,"only use in unsigned char gray image");
 
 	int cols = mat->cols;
 	int rows = mat->rows;
diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index fc1b041..f10f128 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -164,6 +164,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 	hypercv_assert(bip_mat->data_type == 4, "hyper mat data type should be float");
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
 	hypercv_assert(dst_mat->data_type == 4,"simple mat datatype ==4");
+	hypercv_assert(dst_mat->channels == 1,"simple mat channels == 1");
 //todo other data type
 	float* src_data = (float*)bip_mat->data;
 	float* dst_data = (float*)dst_mat->data;
-- 
2.43.0


From 0285f3ce31eca4938db40e709954b884af07af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 92/94] fix: image mean and variance reject types they do not
 know

---
 modules/core/src/c_src/simplemat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 898bbd8..6fd1c65 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -310,6 +310,8 @@ float simple_mat_mean(simple_mat mat)
 					res += data[i];
 				break;
 			}
+		default:
+			hypercv_assert(0, "unsupported data type");
 	}
 	return res/rows/cols;
 }
@@ -373,6 +375,8 @@ float simple_mat_variance(simple_mat mat)
 					res += pow(mean-data[i], 2);
 				break;
 			}
+		default:
+			hypercv_assert(0, "unsupported data type");
 	}
 	return res/rows/cols;
 }
-- 
2.43.0


From b1dfc1c6638453479cd101ea62972ab6a9e6717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 93/94] fix: BMP saving rejects images that are neither gray
 nor colour

---
 modules/core/src/c_src/simplemat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 6fd1c65..55f7760 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -181,6 +181,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(bmpName != NULL, "write bmp image path can not be NULL");
 	hypercv_assert(src_mat != NULL,"save mat can not be null");
 	hypercv_assert(src_mat->data_type == 1,"save mat only 0-255");
+	hypercv_assert(src_mat->channels == 1||src_mat->channels == 3,"save mat channels == 1 or 3");
 
 	FILE *fp = fopen(bmpName, "wb");
 	hypercv_assert(fp != NULL,"save file can not open");
-- 
2.43.0


From 82c88e56c303eeab63773c6f5dd17d916bcea9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 94/94] fix: the transform sizes skipped products with a power
 of 3 above the 14th

---
 modules/algorithm/include/algorithm/dft.h | 76 +++++++++++------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/modules/algorithm/include/algorithm/dft.h b/modules/algorithm/include/algorithm/dft.h
index c1c0f96..d97a54d 100644
--- a/modules/algorithm/include/algorithm/dft.h
+++ b/modules/algorithm/include/algorithm/dft.h
@@ -79,7 +79,7 @@ static const int optimal_DFT_sizetab[] = {
 11664000, 11718750, 11796480, 11809800, 11943936, 12000000, 12150000, 12288000, 12301875,
 12441600, 12500000, 12582912, 12597120, 12656250, 12754584, 12800000, 12960000, 13107200,
 13122000, 13271040, 13286025, 13436928, 13500000, 13668750, 13824000, 13996800, 14062500,
-14155776, 14171760, 14400000, 14580000, 14745600, 14762250, 14929920, 15000000, 15116544,
+14155776, 14171760, 14348907, 14400000, 14580000, 14745600, 14762250, 14929920, 15000000, 15116544,
 15187500, 15360000, 15552000, 15625000, 15728640, 15746400, 15925248, 15943230, 16000000,
 16200000, 16384000, 16402500, 16588800, 16777216, 16796160, 16875000, 17006112, 17280000,
 17496000, 17578125, 17694720, 17714700, 17915904, 18000000, 18225000, 18432000, 18662400,
@@ -89,99 +89,99 @@ static const int optimal_DFT_sizetab[] = {
 22500000, 22674816, 22781250, 23040000, 23328000, 23437500, 23592960, 23619600, 23887872,
 23914845, 24000000, 24300000, 24576000, 24603750, 24883200, 25000000, 25165824, 25194240,
 25312500, 25509168, 25600000, 25920000, 26214400, 26244000, 26542080, 26572050, 26873856,
-27000000, 27337500, 27648000, 27993600, 28125000, 28311552, 28343520, 28800000, 29160000,
+27000000, 27337500, 27648000, 27993600, 28125000, 28311552, 28343520, 28697814, 28800000, 29160000,
 29296875, 29491200, 29524500, 29859840, 30000000, 30233088, 30375000, 30720000, 31104000,
 31250000, 31457280, 31492800, 31640625, 31850496, 31886460, 32000000, 32400000, 32768000,
 32805000, 33177600, 33554432, 33592320, 33750000, 34012224, 34171875, 34560000, 34992000,
 35156250, 35389440, 35429400, 35831808, 36000000, 36450000, 36864000, 36905625, 37324800,
 37500000, 37748736, 37791360, 37968750, 38263752, 38400000, 38880000, 39062500, 39321600,
 39366000, 39813120, 39858075, 40000000, 40310784, 40500000, 40960000, 41006250, 41472000,
-41943040, 41990400, 42187500, 42467328, 42515280, 43200000, 43740000, 44236800, 44286750,
+41943040, 41990400, 42187500, 42467328, 42515280, 43046721, 43200000, 43740000, 44236800, 44286750,
 44789760, 45000000, 45349632, 45562500, 46080000, 46656000, 46875000, 47185920, 47239200,
 47775744, 47829690, 48000000, 48600000, 48828125, 49152000, 49207500, 49766400, 50000000,
 50331648, 50388480, 50625000, 51018336, 51200000, 51840000, 52428800, 52488000, 52734375,
 53084160, 53144100, 53747712, 54000000, 54675000, 55296000, 55987200, 56250000, 56623104,
-56687040, 56953125, 57600000, 58320000, 58593750, 58982400, 59049000, 59719680, 60000000,
+56687040, 56953125, 57395628, 57600000, 58320000, 58593750, 58982400, 59049000, 59719680, 60000000,
 60466176, 60750000, 61440000, 61509375, 62208000, 62500000, 62914560, 62985600, 63281250,
 63700992, 63772920, 64000000, 64800000, 65536000, 65610000, 66355200, 66430125, 67108864,
 67184640, 67500000, 68024448, 68343750, 69120000, 69984000, 70312500, 70778880, 70858800,
-71663616, 72000000, 72900000, 73728000, 73811250, 74649600, 75000000, 75497472, 75582720,
+71663616, 71744535, 72000000, 72900000, 73728000, 73811250, 74649600, 75000000, 75497472, 75582720,
 75937500, 76527504, 76800000, 77760000, 78125000, 78643200, 78732000, 79626240, 79716150,
 80000000, 80621568, 81000000, 81920000, 82012500, 82944000, 83886080, 83980800, 84375000,
-84934656, 85030560, 86400000, 87480000, 87890625, 88473600, 88573500, 89579520, 90000000,
+84934656, 85030560, 86093442, 86400000, 87480000, 87890625, 88473600, 88573500, 89579520, 90000000,
 90699264, 91125000, 92160000, 93312000, 93750000, 94371840, 94478400, 94921875, 95551488,
 95659380, 96000000, 97200000, 97656250, 98304000, 98415000, 99532800, 100000000,
 100663296, 100776960, 101250000, 102036672, 102400000, 102515625, 103680000, 104857600,
 104976000, 105468750, 106168320, 106288200, 107495424, 108000000, 109350000, 110592000,
-110716875, 111974400, 112500000, 113246208, 113374080, 113906250, 115200000, 116640000,
+110716875, 111974400, 112500000, 113246208, 113374080, 113906250, 114791256, 115200000, 116640000,
 117187500, 117964800, 118098000, 119439360, 119574225, 120000000, 120932352, 121500000,
 122880000, 123018750, 124416000, 125000000, 125829120, 125971200, 126562500, 127401984,
-127545840, 128000000, 129600000, 131072000, 131220000, 132710400, 132860250, 134217728,
+127545840, 128000000, 129140163, 129600000, 131072000, 131220000, 132710400, 132860250, 134217728,
 134369280, 135000000, 136048896, 136687500, 138240000, 139968000, 140625000, 141557760,
-141717600, 143327232, 144000000, 145800000, 146484375, 147456000, 147622500, 149299200,
+141717600, 143327232, 143489070, 144000000, 145800000, 146484375, 147456000, 147622500, 149299200,
 150000000, 150994944, 151165440, 151875000, 153055008, 153600000, 155520000, 156250000,
 157286400, 157464000, 158203125, 159252480, 159432300, 160000000, 161243136, 162000000,
 163840000, 164025000, 165888000, 167772160, 167961600, 168750000, 169869312, 170061120,
-170859375, 172800000, 174960000, 175781250, 176947200, 177147000, 179159040, 180000000,
+170859375, 172186884, 172800000, 174960000, 175781250, 176947200, 177147000, 179159040, 180000000,
 181398528, 182250000, 184320000, 184528125, 186624000, 187500000, 188743680, 188956800,
 189843750, 191102976, 191318760, 192000000, 194400000, 195312500, 196608000, 196830000,
 199065600, 199290375, 200000000, 201326592, 201553920, 202500000, 204073344, 204800000,
 205031250, 207360000, 209715200, 209952000, 210937500, 212336640, 212576400, 214990848,
-216000000, 218700000, 221184000, 221433750, 223948800, 225000000, 226492416, 226748160,
-227812500, 230400000, 233280000, 234375000, 235929600, 236196000, 238878720, 239148450,
+215233605, 216000000, 218700000, 221184000, 221433750, 223948800, 225000000, 226492416, 226748160,
+227812500, 229582512, 230400000, 233280000, 234375000, 235929600, 236196000, 238878720, 239148450,
 240000000, 241864704, 243000000, 244140625, 245760000, 246037500, 248832000, 250000000,
-251658240, 251942400, 253125000, 254803968, 255091680, 256000000, 259200000, 262144000,
+251658240, 251942400, 253125000, 254803968, 255091680, 256000000, 258280326, 259200000, 262144000,
 262440000, 263671875, 265420800, 265720500, 268435456, 268738560, 270000000, 272097792,
 273375000, 276480000, 279936000, 281250000, 283115520, 283435200, 284765625, 286654464,
-288000000, 291600000, 292968750, 294912000, 295245000, 298598400, 300000000, 301989888,
+286978140, 288000000, 291600000, 292968750, 294912000, 295245000, 298598400, 300000000, 301989888,
 302330880, 303750000, 306110016, 307200000, 307546875, 311040000, 312500000, 314572800,
 314928000, 316406250, 318504960, 318864600, 320000000, 322486272, 324000000, 327680000,
 328050000, 331776000, 332150625, 335544320, 335923200, 337500000, 339738624, 340122240,
-341718750, 345600000, 349920000, 351562500, 353894400, 354294000, 358318080, 360000000,
+341718750, 344373768, 345600000, 349920000, 351562500, 353894400, 354294000, 358318080, 358722675, 360000000,
 362797056, 364500000, 368640000, 369056250, 373248000, 375000000, 377487360, 377913600,
-379687500, 382205952, 382637520, 384000000, 388800000, 390625000, 393216000, 393660000,
+379687500, 382205952, 382637520, 384000000, 387420489, 388800000, 390625000, 393216000, 393660000,
 398131200, 398580750, 400000000, 402653184, 403107840, 405000000, 408146688, 409600000,
 410062500, 414720000, 419430400, 419904000, 421875000, 424673280, 425152800, 429981696,
-432000000, 437400000, 439453125, 442368000, 442867500, 447897600, 450000000, 452984832,
-453496320, 455625000, 460800000, 466560000, 468750000, 471859200, 472392000, 474609375,
+430467210, 432000000, 437400000, 439453125, 442368000, 442867500, 447897600, 450000000, 452984832,
+453496320, 455625000, 459165024, 460800000, 466560000, 468750000, 471859200, 472392000, 474609375,
 477757440, 478296900, 480000000, 483729408, 486000000, 488281250, 491520000, 492075000,
 497664000, 500000000, 503316480, 503884800, 506250000, 509607936, 510183360, 512000000,
-512578125, 518400000, 524288000, 524880000, 527343750, 530841600, 531441000, 536870912,
+512578125, 516560652, 518400000, 524288000, 524880000, 527343750, 530841600, 531441000, 536870912,
 537477120, 540000000, 544195584, 546750000, 552960000, 553584375, 559872000, 562500000,
-566231040, 566870400, 569531250, 573308928, 576000000, 583200000, 585937500, 589824000,
+566231040, 566870400, 569531250, 573308928, 573956280, 576000000, 583200000, 585937500, 589824000,
 590490000, 597196800, 597871125, 600000000, 603979776, 604661760, 607500000, 612220032,
 614400000, 615093750, 622080000, 625000000, 629145600, 629856000, 632812500, 637009920,
-637729200, 640000000, 644972544, 648000000, 655360000, 656100000, 663552000, 664301250,
-671088640, 671846400, 675000000, 679477248, 680244480, 683437500, 691200000, 699840000,
-703125000, 707788800, 708588000, 716636160, 720000000, 725594112, 729000000, 732421875,
+637729200, 640000000, 644972544, 645700815, 648000000, 655360000, 656100000, 663552000, 664301250,
+671088640, 671846400, 675000000, 679477248, 680244480, 683437500, 688747536, 691200000, 699840000,
+703125000, 707788800, 708588000, 716636160, 717445350, 720000000, 725594112, 729000000, 732421875,
 737280000, 738112500, 746496000, 750000000, 754974720, 755827200, 759375000, 764411904,
-765275040, 768000000, 777600000, 781250000, 786432000, 787320000, 791015625, 796262400,
+765275040, 768000000, 774840978, 777600000, 781250000, 786432000, 787320000, 791015625, 796262400,
 797161500, 800000000, 805306368, 806215680, 810000000, 816293376, 819200000, 820125000,
 829440000, 838860800, 839808000, 843750000, 849346560, 850305600, 854296875, 859963392,
-864000000, 874800000, 878906250, 884736000, 885735000, 895795200, 900000000, 905969664,
-906992640, 911250000, 921600000, 922640625, 933120000, 937500000, 943718400, 944784000,
+860934420, 864000000, 874800000, 878906250, 884736000, 885735000, 895795200, 900000000, 905969664,
+906992640, 911250000, 918330048, 921600000, 922640625, 933120000, 937500000, 943718400, 944784000,
 949218750, 955514880, 956593800, 960000000, 967458816, 972000000, 976562500, 983040000,
 984150000, 995328000, 996451875, 1000000000, 1006632960, 1007769600, 1012500000,
-1019215872, 1020366720, 1024000000, 1025156250, 1036800000, 1048576000, 1049760000,
-1054687500, 1061683200, 1062882000, 1073741824, 1074954240, 1080000000, 1088391168,
+1019215872, 1020366720, 1024000000, 1025156250, 1033121304, 1036800000, 1048576000, 1049760000,
+1054687500, 1061683200, 1062882000, 1073741824, 1074954240, 1076168025, 1080000000, 1088391168,
 1093500000, 1105920000, 1107168750, 1119744000, 1125000000, 1132462080, 1133740800,
-1139062500, 1146617856, 1152000000, 1166400000, 1171875000, 1179648000, 1180980000,
+1139062500, 1146617856, 1147912560, 1152000000, 1162261467, 1166400000, 1171875000, 1179648000, 1180980000,
 1194393600, 1195742250, 1200000000, 1207959552, 1209323520, 1215000000, 1220703125,
 1224440064, 1228800000, 1230187500, 1244160000, 1250000000, 1258291200, 1259712000,
-1265625000, 1274019840, 1275458400, 1280000000, 1289945088, 1296000000, 1310720000,
+1265625000, 1274019840, 1275458400, 1280000000, 1289945088, 1291401630, 1296000000, 1310720000,
 1312200000, 1318359375, 1327104000, 1328602500, 1342177280, 1343692800, 1350000000,
-1358954496, 1360488960, 1366875000, 1382400000, 1399680000, 1406250000, 1415577600,
-1417176000, 1423828125, 1433272320, 1440000000, 1451188224, 1458000000, 1464843750,
+1358954496, 1360488960, 1366875000, 1377495072, 1382400000, 1399680000, 1406250000, 1415577600,
+1417176000, 1423828125, 1433272320, 1434890700, 1440000000, 1451188224, 1458000000, 1464843750,
 1474560000, 1476225000, 1492992000, 1500000000, 1509949440, 1511654400, 1518750000,
-1528823808, 1530550080, 1536000000, 1537734375, 1555200000, 1562500000, 1572864000,
+1528823808, 1530550080, 1536000000, 1537734375, 1549681956, 1555200000, 1562500000, 1572864000,
 1574640000, 1582031250, 1592524800, 1594323000, 1600000000, 1610612736, 1612431360,
 1620000000, 1632586752, 1638400000, 1640250000, 1658880000, 1660753125, 1677721600,
-1679616000, 1687500000, 1698693120, 1700611200, 1708593750, 1719926784, 1728000000,
-1749600000, 1757812500, 1769472000, 1771470000, 1791590400, 1800000000, 1811939328,
-1813985280, 1822500000, 1843200000, 1845281250, 1866240000, 1875000000, 1887436800,
-1889568000, 1898437500, 1911029760, 1913187600, 1920000000, 1934917632, 1944000000,
+1679616000, 1687500000, 1698693120, 1700611200, 1708593750, 1719926784, 1721868840, 1728000000,
+1749600000, 1757812500, 1769472000, 1771470000, 1791590400, 1793613375, 1800000000, 1811939328,
+1813985280, 1822500000, 1836660096, 1843200000, 1845281250, 1866240000, 1875000000, 1887436800,
+1889568000, 1898437500, 1911029760, 1913187600, 1920000000, 1934917632, 1937102445, 1944000000,
 1953125000, 1966080000, 1968300000, 1990656000, 1992903750, 2000000000, 2013265920,
-2015539200, 2025000000, 2038431744, 2040733440, 2048000000, 2050312500, 2073600000,
+2015539200, 2025000000, 2038431744, 2040733440, 2048000000, 2050312500, 2066242608, 2073600000,
 2097152000, 2099520000, 2109375000, 2123366400, 2125764000};
 
 
-- 
2.43.0

