From 13949b47960fe59caf5318cb91a0bb1b18a106d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 001/108] fix: cmpstr read past the end of the 3 byte
 interleave

---
 modules/core/src/c_src/hypermat.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..57dd3ce 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -21,12 +21,8 @@
 // function purpose to compare 2 char[]
 int cmpstr(char temp1[],char temp2[])
 {
-	int len = strlen(temp1)<=strlen(temp2)? strlen(temp1):strlen(temp2);
-
-	if(strlen(temp1) == strlen(temp2) && len == 0)
-		return 1;
-
-	for(int i=0; i<len; i++)
+	//temp1 may be a 3 byte interleave without '\0': never look past the end of temp2.
+	for(int i=0; temp2[i] != '\0' && temp1[i] != '\0'; i++)
 		if(temp1[i] != temp2[i])
 			return 0;
 
-- 
2.43.0


From 84821b16935b89dea3b8d3ecf9e2266d9e98ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 002/108] fix: hyper_mat_copy returned NULL for every cube

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 57dd3ce..230604d 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -389,7 +389,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From ca240c12b0432adee5861f4160bdf07fbb3c653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 003/108] fix: hyper mats of complex, unknown or >2GiB data got
 a wrong size

---
 modules/core/include/c_include/type.h | 6 ++++++
 modules/core/src/c_src/hypermat.c     | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..76d5389 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -64,6 +64,12 @@ static inline int get_elemsize(const int data_type)
 		case 5:
 			return sizeof(double);
 			break;
+		case 6:
+			return 2 * sizeof(float);
+			break;
+		case 9:
+			return 2 * sizeof(double);
+			break;
 		case 12:
 			return sizeof(unsigned short);
 			break;
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 230604d..7fa9b4b 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -175,9 +175,10 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "the data type of hyper mat is not supported.");
     
-	long int mat_data_size = samples * lines * bands * elem_size;
-	int wave_data_size = bands * sizeof(float);
+	long int mat_data_size = (long int)samples * lines * bands * elem_size;
+	long int wave_data_size = bands * sizeof(float);
 
 	memneeded += mat_data_size + ALLOC_BYTE_ALIGNMENT;
 	memneeded += wave_data_size + ALLOC_BYTE_ALIGNMENT;
-- 
2.43.0


From 02ac436b88eaeaaa402a5fe70a706a9216b5f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 004/108] fix: hyper_mat_copy_to overflowed int for cubes over
 2GiB

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 7fa9b4b..17f8082 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -424,7 +424,7 @@ void hyper_mat_copy_to(hyper_mat src_mat, hyper_mat dst_mat)
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	memcpy(dst_data, src_data, samples*lines*bands*elemsize);
+	memcpy(dst_data, src_data, (size_t)samples*lines*bands*elemsize);
 	hyper_mat_copy_wavelength(src_mat, dst_mat);
 
 	for(int i=0;i<3;i++)
-- 
2.43.0


From 3b6aa9bedb10dde68e1fdb7dde88e74ae1cd6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 005/108] fix: hdr parsing overran its buffers and confused
 items sharing a prefix

---
 modules/core/src/c_src/hypermat.c | 110 ++++++++++++++++--------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 17f8082..40372b4 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -10,10 +10,6 @@
 #define MAXLINE 10000 //each line no more than 10000 words
 #endif
 
-#ifndef MAXWAVECHAR
-#define MAXWAVECHAR 20
-#endif
-
 //*************************************************************
 //                       private                              * 
 //*************************************************************
@@ -31,30 +27,32 @@ int cmpstr(char temp1[],char temp2[])
 }
 
 // private function purpose to read wavelength from hdr file
-// default wavelength charlength < 12
 static void read_wavelength(char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
-	for(int i=0;i<MAXWAVECHAR;i++)
-		tmp[i]=' ';
-	int t = 0;
-	int n = 0;
-	for (int i=0;i<strlen(w);i++)
+	for(int n=0; n<bands && w != NULL; n++)
 	{
-		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
-		else
-		{
-			wavelength[n++] = atof(tmp);
-			t=0;
-			for(int j=0;j<MAXWAVECHAR;j++)
-				tmp[j]=' ';
-		}
-		if(w[i]=='}'||n==bands)
-			break;
+		wavelength[n] = atof(w);
+		w = strchr(w, ',');
+		if(w != NULL)
+			w++;
 	}
-	free(tmp);
-	tmp=NULL;
+}
+
+// private function purpose to find if the item of a hdr line is name
+static int hdr_item_is(const char* line, const char* name)
+{
+	while(*line == ' ' || *line == '\t')
+		line++;
+
+	int len = strlen(name);
+	if(strncmp(line, name, len) != 0)
+		return 0;
+
+	line += len;
+	while(*line == ' ' || *line == '\t')
+		line++;
+
+	return *line == '=';
 }
 
 
@@ -80,64 +78,72 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	hypercv_assert(hdr_fp != NULL, "can not open hdr file");
 
 	char line[MAXLINE];
-	char item[MAXLINE];
 
-	char it[4];
+	char it[4] = "";
+	char* w = NULL;
 
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
-		sscanf(line, "%[^=]", item);
-
-		if (cmpstr(item, "samples") == 1)
+		if (hdr_item_is(line, "samples") == 1)
 		{
 			sscanf(line, "%*[^=]=%d",&sampletemp);
 			*samples = sampletemp ;
 		}
-		else if (cmpstr(item, "lines") == 1)
+		else if (hdr_item_is(line, "lines") == 1)
 		{
 			sscanf(line, "%*[^=]=%d",&linetemp);
 			*lines = linetemp;
 		}
-		else if (cmpstr(item, "bands") == 1)
+		else if (hdr_item_is(line, "bands") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
 		}
-		else if (cmpstr(item, "data") == 1)
+		else if (hdr_item_is(line, "data type") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &datatypetemp);
 			*data_type = datatypetemp;
 		}
-		else if (cmpstr(item, "interleave") == 1)
+		else if (hdr_item_is(line, "interleave") == 1)
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
-			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
-			}
+			sscanf(line, "%*[^=]= %3s", it);
+			for(int i=0;i<3;i++)
+				interleave[i] = it[i];
 		}
-		else if (cmpstr(line,"wavelength = {")==1)
+		else if (hdr_item_is(line, "wavelength") == 1 && strchr(line, '{') != NULL && w == NULL)
 		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
-			char* t_w = w;
+			//collect the text between the braces, which may span lines.
+			char* part = strchr(line, '{') + 1;
+			size_t len = 0;
 
-			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
+			do
 			{
-				for (int i = 0; i < strlen(line); i++)
-				{
-					if (line[i] != '\n')
-						*t_w++ = line[i];
-				}
+				size_t n = strcspn(part, "}\r\n");
+				w = (char*)realloc(w, len + n + 1);
+				hypercv_assert(w != NULL, "malloc fail");
+				memcpy(w + len, part, n);
+				len += n;
+				w[len] = '\0';
+				part = line;
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
-			read_wavelength(w, wave, bandtemp);
-			*wavelength = wave;
-			free(w); w = NULL;
+			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0);
 		}
 	}
+
+	hypercv_assert(sampletemp > 0 && linetemp > 0 && bandtemp > 0, "the size in hdr file must be greater than zero");
+	hypercv_assert(get_elemsize(datatypetemp) > 0, "the data type in hdr file is not supported");
+	hypercv_assert(strcmp(it, "bsq") == 0 || strcmp(it, "bil") == 0 || strcmp(it, "bip") == 0, "the interleave in hdr file must be bsq bil or bip");
+
+	if (w != NULL)
+	{
+		float* wave = (float*)calloc(bandtemp, sizeof(float));
+		hypercv_assert(wave != NULL, "malloc fail");
+		read_wavelength(w, wave, bandtemp);
+		*wavelength = wave;
+		free(w); w = NULL;
+	}
 }
 
 /**
-- 
2.43.0


From 64eb6bb7e6ee186c836b36420cf93534aa0a2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 006/108] fix: hmread leaked its buffers and returned
 uninitialised data for short files

---
 modules/core/src/c_src/hypermat.c | 36 ++++++++++++++-----------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 40372b4..13d0703 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -230,8 +230,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
-	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	int samples = 0, lines = 0, bands = 0, data_type = 0;
+	char interleave[3];
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -243,25 +243,25 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
 		return 0;
 	}
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
-	unsigned int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, NULL, wavelength);
 
-	void* data = (void *)malloc(data_size * elem_size);
-	hypercv_assert(data != NULL, "malloc fail");
-	
-	fread(data, elem_size, data_size, image_fp);
+	size_t elem_size = get_elemsize(data_type);
+	size_t data_size = (size_t)samples * lines * bands;
+
+	hypercv_assert(fread(mat->data, elem_size, data_size, image_fp) == data_size, "the image file is shorter than its hdr says");
 	
 	fclose(image_fp);
 	fclose(hdr_fp);
-	
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
-
-	free(interleave);
+	free(wavelength);
 	
 	return mat;
 }
@@ -289,18 +289,14 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 		return 0;
 	}
 
-	int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	hyper_mat mat = create_hyper_mat(samples, lines, bands, data_type, interleave);
 
-	void* data = (void *)malloc(data_size * elem_size);
+	size_t elem_size = get_elemsize(data_type);
+	size_t data_size = (size_t)samples * lines * bands;
 
-	fread(data, elem_size, data_size, image_fp);
+	hypercv_assert(fread(mat->data, elem_size, data_size, image_fp) == data_size, "the image file is shorter than the given size");
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
-
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
-
 	return mat;
 }
 
-- 
2.43.0


From 61998c99da0f4589e4cbbfe639563c06e6c22703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 007/108] fix: saving a cube leaked, crashed or went unnoticed
 when the files could not be written

---
 modules/core/src/c_src/hypermat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 13d0703..6610d6c 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -317,9 +317,11 @@ void hmsave(const char* image_path, hyper_mat mat)
 	FILE* image_fp;
 	image_fp = fopen(image_path, "wb");
 	hypercv_assert(image_fp != NULL, "can not open files");
-	fwrite(mat->data, elemsize, samples * lines * bands, image_fp);
+	size_t data_size = (size_t)samples * lines * bands;
+	size_t written = fwrite(mat->data, elemsize, data_size, image_fp);
+	int failed = fclose(image_fp);
+	hypercv_assert(written == data_size && failed == 0, "can not write image file");
 	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
-	fclose(image_fp);
 
 }
 
@@ -356,6 +358,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 
 	FILE *fp;
 	fp = fopen(hdr_path, "w");
+	free(hdr_path);
+	hypercv_assert(fp != NULL, "can not open hdr file");
 
 	fputs("ENVI\n", fp);
 	fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -363,7 +367,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	fputs("bands = ", fp); fprintf(fp, "%d\n", bands);
 	fputs("data type = ", fp); fprintf(fp, "%d\n", data_type);
 
-	char* it = (char*)malloc(4*sizeof(char));
+	char it[4];
 	for(int i=0;i<3;i++)
 		it[i] = interleave[i];
 	it[3] = '\0';
@@ -381,7 +385,9 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	{
 		fputs("wavelength = unknown \n",fp);
 	}
-	fclose(fp);
+	int failed = ferror(fp);
+	failed = fclose(fp) || failed;
+	hypercv_assert(failed == 0, "can not write hdr file");
 }
 
 
-- 
2.43.0


From 5ee1861ab64b865c35d3bf80dce8a60b9aea7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 008/108] fix: simple mats were partly uninitialised and freed
 wrongly depending on their address

---
 modules/core/src/c_src/simplemat.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..4c526df 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -25,18 +25,18 @@ simple_mat create_simple_mat(int rows, int cols, int date_type, int channels)
  **/
 simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int channels, void* data)
 {
-	hypercv_assert(rows > 0 && cols > 0, "the rows and cols of mat must be greater than zero ");
+	hypercv_assert(rows > 0 && cols > 0 && channels > 0, "the rows and cols of mat must be greater than zero ");
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	//the alignment is part of every block: delete_simple_mat relies on it to find out who owns the data.
+	size_t memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "the data type of mat is not supported");
 
+	size_t data_size = (size_t)rows * cols * elem_size * channels; 
 	if (data == NULL)
-	{
-		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
-	}
+		memneeded += data_size;
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
 	hypercv_assert(mat != NULL, "failed to allocate memory");
@@ -45,7 +45,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, data_size);
 		mat -> data = (void*)address;
 	}
 	else
@@ -494,7 +494,10 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	uintptr_t start = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+
+	//data inside the block of the mat itself
+	if((uintptr_t)mat->data >= start && (uintptr_t)mat->data < start + ALLOC_BYTE_ALIGNMENT)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From af050c9f6d188c08d46103bb16d52bb826c089cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 009/108] fix: smread ignored the channels and returned
 uninitialised data for short files

---
 modules/core/src/c_src/simplemat.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 4c526df..79bbe21 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -75,14 +75,13 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
-	void* data = (void *)malloc(data_size * elem_size);
-
-	fread(data, elem_size, data_size, image_fp);
-	fclose(image_fp);
+	size_t data_size = (size_t)rows * cols * channels;
 
 	simple_mat mat;
-	mat = create_simple_mat_with_data(rows, cols, data_type, channels, data);
+	mat = create_simple_mat(rows, cols, data_type, channels);
+
+	hypercv_assert(fread(mat->data, elem_size, data_size, image_fp) == data_size, "the image file is shorter than the given size");
+	fclose(image_fp);
 
 	return mat;
 }
-- 
2.43.0


From 874f8782140ddde7562768b40b0c7595508967f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 010/108] fix: simple_mat_copy overflowed int for images over
 2GiB

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 79bbe21..24cc029 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -104,7 +104,7 @@ simple_mat simple_mat_copy(simple_mat mat)
 	char * src_data = (char*)mat->data;
 	char * dst_data = (char*)dst->data;
 	
-	memcpy(dst_data, src_data, rows*cols*elemsize*channels);
+	memcpy(dst_data, src_data, (size_t)rows*cols*elemsize*channels);
 	
 	return dst;
 }
-- 
2.43.0


From d01e967403dc89905e77474e5b4c0e06cfb0b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 011/108] fix: smread_bmp misread 8 bit images, odd heights and
 bfOffBits, and trusted the header

---
 modules/core/src/c_src/simplemat.c | 51 ++++++++++++++----------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 24cc029..bc3f542 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -122,51 +122,46 @@ simple_mat smread_bmp(const char *bmpName)
 	FILE *fp = fopen(bmpName, "rb");
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
-	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
+	BmpFileHeader fileHead;
 	BmpInfoHeader head;
-	fread(&head, sizeof(BmpInfoHeader), 1, fp);
+	hypercv_assert(fread(&fileHead, sizeof(BmpFileHeader), 1, fp) == 1 && fread(&head, sizeof(BmpInfoHeader), 1, fp) == 1, "BMP IMAGE TOO SHORT");
+	hypercv_assert(fileHead.bfType == 0x4D42 && head.biWidth > 0 && head.biHeight > 0 && head.biCompression == 0
+			&& (head.biBitCount == 8 || head.biBitCount == 24), "BMP IMAGE NOT SUPPORTED");
  
 	int channels   = 3;
 	int bmpWidth   = head.biWidth;
 	int bmpHeight  = head.biHeight;
 	int biBitCount = head.biBitCount;
-    int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
+    size_t lineByte = ((size_t)bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
+	RGBQUAD pColorTable[256];
+	memset(pColorTable, 0, sizeof(pColorTable));
 	if (biBitCount == 8)
 	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
-		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
+		size_t colors = head.biClrUsed > 0 && head.biClrUsed < 256 ? head.biClrUsed : 256;
+		fseek(fp, sizeof(BmpFileHeader) + (long)head.biSize, SEEK_SET);
+		hypercv_assert(fread(pColorTable, sizeof(RGBQUAD), colors, fp) == colors, "BMP IMAGE TOO SHORT");
 	}
 	
-	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
-	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
+	unsigned char* pBmpBuf = (unsigned char *)malloc(lineByte * bmpHeight);
+	hypercv_assert(pBmpBuf != NULL, "failed to allocate memory");
+	fseek(fp, fileHead.bfOffBits, SEEK_SET);
+	hypercv_assert(fread(pBmpBuf, 1, lineByte * bmpHeight, fp) == lineByte * bmpHeight, "BMP IMAGE TOO SHORT");
 	fclose(fp);
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
-	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	//the rows of a bmp image are stored bottom up, its pixels as BGR or as color table index.
+	for(int i=0; i<bmpHeight; i++)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		unsigned char* pres = (unsigned char*)res->data + (size_t)i*bmpWidth*channels;
+		unsigned char* pbmp = pBmpBuf + (bmpHeight-i-1)*lineByte;
+
+		for(int j=0; j<bmpWidth; j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			RGBQUAD* color = pColorTable + pbmp[j];
+			for(int k=0; k<channels; k++)
+				pres[j*channels + k] = biBitCount == 8 ? ((unsigned char*)color)[2-k] : pbmp[j*channels + 2-k];
 		}
 	}
 
-- 
2.43.0


From 92f03fd2d45177aadd0566905d77e6925aa31320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 012/108] fix: smwrite_bmp flipped the image of its caller,
 wrote uninitialised padding and leaked

---
 modules/core/src/c_src/simplemat.c | 37 +++++++++++-------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index bc3f542..1f466f9 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -179,6 +179,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(bmpName != NULL, "write bmp image path can not be NULL");
 	hypercv_assert(src_mat != NULL,"save mat can not be null");
 	hypercv_assert(src_mat->data_type == 1,"save mat only 0-255");
+	hypercv_assert(src_mat->channels == 1 || src_mat->channels == 3,"save mat must have 1 or 3 channels");
 
 	FILE *fp = fopen(bmpName, "wb");
 	hypercv_assert(fp != NULL,"save file can not open");
@@ -229,37 +230,27 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	//the rows of a bmp image are stored bottom up, padded, and its pixels as BGR.
+	unsigned char* line = (unsigned char*)calloc(lineByte, 1);
+	hypercv_assert(line != NULL, "failed to allocate memory");
+
+	for(int i=height-1; i>=0; i--)
 	{
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
+				line[j*channels + k] = imgBuf[((size_t)i*width + j)*channels + 2-k];
 		}
+		fwrite(line, lineByte, 1, fp);
 	}
+	free(line);
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 
-	fclose(fp);
+	int failed = ferror(fp);
+	failed = fclose(fp) || failed;
+	hypercv_assert(failed == 0, "can not write bmp image");
 }
 
 /**
-- 
2.43.0


From 08050abe56ddeb994709b47a246a230e96717078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 013/108] fix: simple_mat_mean and simple_mat_variance misread
 or ignored most data types

---
 modules/core/src/c_src/simplemat.c | 76 ++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1f466f9..1aac466 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -265,7 +265,7 @@ float simple_mat_mean(simple_mat mat)
 	int rows = mat -> rows;
 	int cols = mat -> cols;
 
-	float res = 0.0;
+	double res = 0.0;
 
 	switch (mat -> data_type)
 	{
@@ -277,6 +277,12 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*) mat->data;
@@ -286,7 +292,7 @@ float simple_mat_mean(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*) mat->data;
+				int* data = (int*) mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
@@ -298,6 +304,34 @@ float simple_mat_mean(simple_mat mat)
 					res += data[i];
 				break;
 			}
+		case 5:
+			{
+				double* data = (double*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 13:
+			{
+				unsigned int* data = (unsigned int*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 14:
+			{
+				long int* data = (long int*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 15:
+			{
+				unsigned long int* data = (unsigned long int*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 	}
 	return res/rows/cols;
 }
@@ -314,7 +348,7 @@ float simple_mat_variance(simple_mat mat)
 
 	int rows   = mat->rows;
 	int cols   = mat->cols;
-	float res  = 0.0;
+	double res  = 0.0;
 	float mean = simple_mat_mean(mat);
 	
 	switch (mat -> data_type)
@@ -327,6 +361,12 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*)mat->data;
+				for(int i=0;i<rows*cols;i++)
+					res += pow(mean-data[i],2);
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
@@ -336,7 +376,7 @@ float simple_mat_variance(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*)mat->data;
+				int* data = (int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
@@ -348,6 +388,34 @@ float simple_mat_variance(simple_mat mat)
 					res += pow(mean-data[i], 2);
 				break;
 			}
+		case 5:
+			{
+				double* data = (double*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 13:
+			{
+				unsigned int* data = (unsigned int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 14:
+			{
+				long int* data = (long int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 15:
+			{
+				unsigned long int* data = (unsigned long int*)mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
 	}
 	return res/rows/cols;
 }
-- 
2.43.0


From b22cdf5e0ce2ae57ba73896e4c5160b5c7f7e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 014/108] fix: grayscale statistics and entropy always exited,
 contrast ratio leaked

---
 modules/core/src/c_src/simplemat.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1aac466..4bf8fdc 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -429,7 +429,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
@@ -449,6 +449,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -491,7 +494,14 @@ float simple_mat_contrast_ratio(simple_mat mat)
 		}
 	}
 
-	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+	if(tmp != mat)
+		delete_simple_mat(tmp);
+
+	int neighbours = 4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4;
+	if(neighbours == 0)
+		return 0;
+
+	res = res/neighbours;
 	return res;
 }
 
@@ -508,16 +518,6 @@ float simple_mat_entropy(simple_mat mat)
 
 	int rows = mat->rows;
 	int cols = mat->cols;
-	int channels = mat->channels;
-
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
 
 	float res =0.0;
 
-- 
2.43.0


From 8bdff760fe97abd27504df117d9652ea09de28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 015/108] fix: deleting a 2D struct leaked its data

---
 modules/core/src/c_src/struct_2D.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..bf98929 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,13 +15,20 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
+	//the data is part of the block, so that delete_S_2D frees it.
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + (size_t)width * height * sizeof(unsigned char));
+	hypercv_assert(s != NULL ,"fail to build 2d_struct");
+
+	unsigned char * data = (unsigned char*)(s + 1);
 	
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
-	
-	return create_2D_struct_with_data(width, height, data);
-	
+
+	s->data = data;
+	s->width = width;
+	s->height = height;
+
+	return s;
 }
 
 /**
-- 
2.43.0


From a46c98fb324083c6079777adfe985704a3d09b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:27 +0000
Subject: [PATCH 016/108] fix: vector_init did not compile and kept the old
 elements

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..5368492 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -164,9 +164,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From 8a6d6d2c28b4b0fa47fa6866f9d90850a3a72b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 017/108] fix: BORDER_CONSTANT read pixel 1 of the row or
 column, out of bounds for a single one

---
 modules/core/include/c_include/type.h |  4 ++--
 modules/process/src/c_src/filter.c    | 12 ++++++++++++
 modules/process/src/c_src/gradient.c  |  8 ++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 76d5389..5d55a4a 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -131,7 +131,7 @@ static inline int HYPERCV_ROUND( double value )
  * @param[in]  p                   index.        
  * @param[in]  len                 len of src_mat.
  * @param[in]  border_type         type of border.
- * @retva      hyper_mat           hyper mat 
+ * @retva      int                 index inside the src_mat, -1 for a const border.
  * Various border types, image boundaries are denoted with '|'
  * BORDER_CONSTANT    = 0, //!< `iiiiii|abcdefgh|iiiiiii`  with some specified `i`
  * BORDER_REPLICATE   = 1, //!< `aaaaaa|abcdefgh|hhhhhhh`
@@ -187,7 +187,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = -1;
 				break;
 			}
 	}
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..67e8933 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -115,6 +115,10 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 						index_j = hypercv_border_Interpolate( j+n-k_cols/2, cols, border_type);
 					else
 						index_j = j+n-k_cols/2;
+
+					//const border is 0.
+					if (index_i < 0 || index_j < 0)
+						continue;
 			
 					if (cn == 1)
 						dst_data[i*cols+j] += (kernel[m*k_cols+n]*src_data[index_i*cols+index_j]);
@@ -374,6 +378,10 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index = j+k-border_x;
 				}
 
+				//const border is 0.
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 				{
 					sum[0] += (kx_data[k]*src_data[i*src_cols+index]);
@@ -421,6 +429,10 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 					index =j+k-border_y;
 				}
 
+				//const border is 0.
+				if (index < 0)
+					continue;
+
 				if (cn == 1)
 					sum[0] += (ky_data[k]*temp_data[(index)*temp_mat->cols+i]);
 				else if (cn == 3)
diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index 61638b9..dc8b988 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -54,6 +54,10 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 					else
 						index_n = j+n-1;
 
+					//const border is 0.
+					if(index_m < 0 || index_n < 0)
+						continue;
+
 					sum += kernel[m][n]*src_data[index_m*cols+index_n];
 				}
 			}
@@ -117,6 +121,10 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 					else
 						index_n = j+n-1;
 
+					//const border is 0.
+					if(index_m < 0 || index_n < 0)
+						continue;
+
 					gradx += gx[m][n]*src_data[index_m*cols+index_n];
 					grady += gy[m][n]*src_data[index_m*cols+index_n];
 				}
-- 
2.43.0


From 2b5f5d563b365d36241cae563b7816fc934a511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 018/108] fix: filter2D changed the type of dst and added to
 its old content

---
 modules/process/src/c_src/filter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 67e8933..5de5ce6 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -87,7 +87,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
+	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels,"src size == dst size");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -96,6 +97,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	
 	unsigned char* src_data = (unsigned char*)src->data;
 	float* dst_data = (float*)dst->data;
+	memset(dst_data, 0, (size_t)rows*cols*cn*sizeof(float));
 	
 	int index_i,index_j;
 	for(int i=0;i<rows;i++)
-- 
2.43.0


From a163a572ac814ed9c6c7613770a105864e6f0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 019/108] fix: medianblur rejected every image and never found
 a median

---
 modules/process/src/c_src/filter.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 5de5ce6..9512609 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,19 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static void swap(unsigned char* a,unsigned char* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	unsigned char c = *a;
+	*a = *b;
+	*b = c;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
+	for(int gap = size/2; gap>0; gap/=2)
 		for(int i=gap; i<size; i++)
 			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+				swap(array+j,array+j+gap);
 	return array[size/2]; 
 }
 
@@ -145,7 +145,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -165,12 +165,13 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+	free(arr);
 }
 
 /**
-- 
2.43.0


From d5a5888c46b6849146426df0b0c00dc6cd50abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 020/108] fix: meanblur rejected every image, averaged a
 diagonal and leaked

---
 modules/process/src/c_src/filter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 9512609..f70b575 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -182,7 +182,8 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
+	hypercv_assert(size>0,"size should be greater than zero");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -190,20 +191,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -(size/2);m<size-size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -(size/2); n<size-size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From 6448677c061ad5ab2f46fa2a4a29c92963355e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 021/108] fix: gaussian blur leaked its kernels and its
 temporary image

---
 modules/process/src/c_src/filter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index f70b575..1330f86 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -317,6 +317,9 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -466,6 +469,8 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From 4873c1281a9058da3e6dd36204d07e71536d186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 022/108] fix: integral did not sum up its first row and column

---
 modules/process/src/c_src/filter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 1330f86..e3793ec 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -502,8 +502,12 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
+			if(i==0&&j==0)
 				dst_data[i*cols+j] = src_data[i*cols+j];
+			else if(i==0)
+				dst_data[i*cols+j] = dst_data[i*cols+j-1] + src_data[i*cols+j];
+			else if(j==0)
+				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + src_data[i*cols+j];
 			else
 				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
 		}
-- 
2.43.0


From 28021753ff71cfeba0b3e13b5d4c99b61a2d75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 023/108] fix: morphology addressed pixels by rows instead of
 cols

---
 modules/process/src/c_src/morphology.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..0a96363 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -47,7 +47,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +55,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -111,7 +111,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +119,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From 18dd6acc4b4a582fb731cce4cabce42edd1d5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 024/108] fix: expend grew the background instead of the
 foreground

---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 0a96363..a7095f8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -119,7 +119,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From f16ffbfad3cbfafe6019188a486c7a11492a7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 025/108] fix: open and close dropped the result of their first
 step

---
 modules/process/src/c_src/morphology.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index a7095f8..20e7ed4 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -157,11 +157,15 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(i==0?src:dst,tmp,kernel);
+		hypercv_expend(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 /**
@@ -185,11 +189,15 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = simple_mat_copy(src);
+
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(i==0?src:dst,tmp,kernel);
+	    hypercv_corrosion(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 0ec8d22710f0b24c99dedff2fe54e5cee0a75751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 026/108] fix: relative radiometric correction used the
 coefficients of other samples and bands

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..7cfda62 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -24,7 +24,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 		{
 			for (int k = 0; k < bands; k++)
 			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
 			}
 		}
 	}
-- 
2.43.0


From ce84ad8e4fd2fc76c15ef5ad98ffb6a71c18a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 027/108] fix: MulMatrix added the product to the old content
 of its output

---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..5eed698 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 8f6004bf34317b3e9fd2a9885deda0e014f54c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 028/108] fix: matrix_QR_float did not project onto the columns
 of q and leaked

---
 modules/process/src/c_src/matrixprocess.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 5eed698..4c740b0 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -247,30 +247,30 @@ float matrix_norm_float(float* m,int size)
 
 void matrix_QR_float(float* a, float* q, float *r,int m)
 {
-	float* col_a = (float*)malloc(m*sizeof(float));
 	float* col_q = (float*)malloc(m*sizeof(float));
 
 	for (int j=0;j<m;j++)
 	{
 		for(int i=0;i<m;i++)
 		{
-			col_a[i] = a[i*m+j];
 			col_q[i] = a[i*m+j];
 		}
 		for(int k=0;k<j;k++)
 		{
 			r[k*m+j] = 0;
+			r[j*m+k] = 0;
 			for(int i1=0; i1<m;i1++)
-				r[k*m+j]+=col_a[i1];
+				r[k*m+j]+=col_q[i1]*q[i1*m+k];
 			for(int i2=0;i2<m;i2++)
-				col_q[i2] -= r[k*m+j];
+				col_q[i2] -= r[k*m+j]*q[i2*m+k];
 		}
 
 		float tmp = matrix_norm_float(col_q,m);
 		r[j*m+j] = tmp;
 		for(int i = 0;i<m;i++)
-			q[i*m+j] = col_q[i]/tmp;
+			q[i*m+j] = tmp>0?col_q[i]/tmp:0;
 	}
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 063c666c40466131b733649cb8e58ad36b6dae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 029/108] fix: cal_eigen_vector_float did not normalise its
 first pivot

---
 modules/process/src/c_src/matrixprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 4c740b0..952d09c 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -290,7 +290,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		{
 			float coe = temp[i*n+i];
 			
-			for(int j=1;j<n;j++)
+			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
 			for (int i1 = i + 1; i1 < m; i1++)
-- 
2.43.0


From 615250298ad6a364bb0c757ba7fcaa5a1077bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 030/108] fix: invert_matrix_float destroyed its input and
 divided by tiny pivots

---
 modules/process/src/c_src/matrixprocess.c | 30 ++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 952d09c..6ae2041 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -423,23 +423,30 @@ void shear_row(float* mat, int rows, int cols, int r1, int r2, float scalar)
 }
 
 
-void invert_matrix_float(float* res, float* mat, int m)
+void invert_matrix_float(float* res, float* src, int m)
 {
+	//the elimination works on a copy, the matrix of the caller is an input.
+	float* mat = (float*)malloc((size_t)m*m*sizeof(float));
+	hypercv_assert(mat != NULL, "failed to allocate memory");
+	memcpy(mat,src,(size_t)m*m*sizeof(float));
+
 	set_identity_matrix_float(res,m);
 	int i,j,r;
 	for(i=0;i<m;i++)
 	{
-		if(mat[i*m+i] == 0.0)
+		//pivot on the largest member of the column.
+		int pivot = i;
+		for(r=i+1;r<m;r++)
 		{
-			for(r=i+1;r<m;r++)
-			{
-				if(mat[r*m+i]!=0.0)
-					break;
-			}
-			if(r == m)
-				return;
-			swap_rows_float(mat,m,m,i,r);
-			swap_rows_float(res,m,m,i,r);
+			if(fabs(mat[r*m+i]) > fabs(mat[pivot*m+i]))
+				pivot = r;
+		}
+		if(mat[pivot*m+i] == 0.0)
+			break;
+		if(pivot != i)
+		{
+			swap_rows_float(mat,m,m,i,pivot);
+			swap_rows_float(res,m,m,i,pivot);
 		}
 		float scalar = 1.0/mat[i*m+i];
 		matrix_row_multi_scalar_float(mat,m,m,i,scalar);
@@ -454,4 +461,5 @@ void invert_matrix_float(float* res, float* mat, int m)
 			shear_row(res,m,m,j,i,shear_needed);
 		}
 	}
+	free(mat);
 }
-- 
2.43.0


From 29c70c9ca29b36ef20342223e7101e63d12b3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 031/108] fix: hypercv_factorial(10) was 11!

---
 modules/process/src/c_src/mathprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 412c8ff..103a851 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -6,7 +6,7 @@
  ************************************************************************/
 #include "precomp.h"
 
-static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 39916800};
+static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 3628800};
 /**
  * @brief      calculate the mean value . .
  * @param[in]  t          vector t
-- 
2.43.0


From 6463ca4ed7f6a4ed3c836bd1f3e3609a457e2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 032/108] fix: the means lost precision by summing up in float

---
 modules/process/src/c_src/mathprocess.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 103a851..8bd3b7c 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -28,7 +28,7 @@ double mean_double(double* t,int len)
  **/
 float mean_uint(unsigned int * t,int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -42,7 +42,7 @@ float mean_uint(unsigned int * t,int len)
  **/
 float mean_short(short *t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -56,7 +56,7 @@ float mean_short(short *t, int len)
  **/
 float mean_ushort(unsigned short* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -70,7 +70,7 @@ float mean_ushort(unsigned short* t, int len)
  **/
 float mean_float(float* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -84,7 +84,7 @@ float mean_float(float* t, int len)
  **/
 float mean_uchar(unsigned char* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -98,7 +98,7 @@ float mean_uchar(unsigned char* t, int len)
  **/
 float mean_char(char* t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
@@ -112,7 +112,7 @@ float mean_char(char* t, int len)
  **/
 float mean_int(int *t, int len)
 {
-	float res=0;
+	double res=0;
 	for(int i=0; i<len; i++)
 		res+=t[i];
 	res = res/len;
-- 
2.43.0


From b4aa64d6ad08934040feff73deed678cfa12f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 033/108] fix: ranges, bands and parts outside of a cube were
 accessed instead of rejected

---
 modules/process/src/c_src/imageprocess.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..dfd4db4 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -388,6 +388,8 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
+	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0, "start col & start row & start band must >= 0");
+	hypercv_assert(end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "end col & end row & end band must be inside of the image");
 
 	int samples = end_col - start_col;
 	int lines = end_row - start_row;
@@ -509,11 +511,17 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
+	hypercv_assert(band>0 && band<=src_mat->bands, "0<band<=bands");
+
+	int elemsize = get_elemsize(src_mat->data_type);
+	hypercv_assert((size_t)dst_mat->rows*dst_mat->cols*dst_mat->channels*dst_mat->elem_size >= (size_t)samples*lines*elemsize, "simple mat is too small for the band");
+
 	dst_mat -> rows = lines;
 	dst_mat -> cols = samples;
+	dst_mat -> channels = 1;
 	dst_mat -> data_type = src_mat -> data_type;
+	dst_mat -> elem_size = elemsize;
     
-	int elemsize = get_elemsize(src_mat->data_type);
 	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
 
 	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
@@ -649,6 +657,10 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
 
-	memcpy(mat_data, part_data,part->samples*part->lines*part->bands*elemsize);
+	size_t part_size = (size_t)part->samples*part->lines*part->bands;
+	size_t mat_size = (size_t)mat->samples*mat->lines*mat->bands;
+	hypercv_assert(start_index>=0 && start_index+part_size<=mat_size, "part must be inside of the mat");
+
+	memcpy(mat_data, part_data, part_size*elemsize);
 }
 
-- 
2.43.0


From 353289d8b0cce784b2790782bd63991ee250755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 034/108] fix: simple_mat_2_hyper_mat copied only bytes, to the
 wrong place for wider data types

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index dfd4db4..b8d2d3e 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -543,10 +543,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type == dst_mat->data_type && src_mat->channels == 1,"simple mat data type unequal to hyper mat");
+
+	size_t size = (size_t)samples*lines*get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + size*(band-1);
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,size);
 }
 
 /**
-- 
2.43.0


From a9fd8fbd4347c92acf072c5ac49fe54c25b65700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 035/108] fix: simple_mat_transport mixed up the pixels of
 images with channels

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index b8d2d3e..fb6856c 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -562,10 +562,10 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	int rows = res->rows;
 	int cols = res->cols;
 	
-	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type, "data size of transport image equal to srcmat ");
+	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type && res->channels == src->channels, "data size of transport image equal to srcmat ");
 
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type);
+	int elemsize = get_elemsize(data_type)*src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
-- 
2.43.0


From 9a6d25b5bc84b964ccde55823cb91ec4d06109ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 036/108] fix: simple_mat_addition mixed up the rows of images
 of different widths

---
 modules/process/src/c_src/imageprocess.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index fb6856c..7f013c9 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -580,7 +580,7 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_mat)
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
-	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
+	hypercv_assert(mat1->channels == mat2->channels && mat1->channels == dst_mat->channels,"input mat channels error");
 	
 	int rows,cols;
 	int channels = mat1->channels;
@@ -595,6 +595,8 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows >= rows && dst_mat->cols >= cols,"dst mat is too small");
+
 	unsigned char* data1 = (unsigned char*)mat1->data;
 	unsigned char* data2 = (unsigned char*)mat2->data;
 	
@@ -603,14 +605,14 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[(i*dst_mat->cols+j)*channels+k] = data1[(i*mat1->cols+j)*channels+k]+data2[(i*mat2->cols+j)*channels+k];
 
 }
 
 void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_mat)
 {
 	hypercv_assert(mat1!=NULL&&mat2!=NULL&&dst_mat!=NULL,"input mat cannot be empty");
-	hypercv_assert(mat1->channels == mat2->channels,"input mat channels error");
+	hypercv_assert(mat1->channels == mat2->channels && mat1->channels == dst_mat->channels,"input mat channels error");
 
 	int rows,cols;
 	int channels = mat1->channels;
@@ -625,6 +627,8 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows >= rows && dst_mat->cols >= cols,"dst mat is too small");
+
 	float* data1 = (float*)mat1->data;
 	float* data2 = (float*)mat2->data;
 	float* dst_data = (float*)dst_mat->data;
@@ -632,7 +636,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[(i*dst_mat->cols+j)*channels+k] = data1[(i*mat1->cols+j)*channels+k]+data2[(i*mat2->cols+j)*channels+k];
 
 }
 
-- 
2.43.0


From e09d3ac02b682b476da558953a20d992947ae3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 037/108] fix: float images wrapped instead of saturating when
 converted to integers

---
 modules/process/src/c_src/datatypechange.c | 58 +++++++---------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..e46e4ed 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -6,6 +6,16 @@
 
 #include "precomp.h"
 
+//round to the nearest int inside of [min,max]
+static int round_saturate(float value, int min, int max)
+{
+	if(value >= max)
+		return max;
+	if(value <= min)
+		return min;
+	return HYPERCV_ROUND(value);
+}
+
 /**
  * @brief      data type change .
  * @param[in]  uc_mat    unsigned char image.
@@ -143,7 +153,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i]=HYPERCV_ROUND(fdata[i]);
+		data[i]=round_saturate(fdata[i], INT32_MIN, INT32_MAX);
 	
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -167,20 +177,9 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 
 	char* data = dst->data;
 	float* fdata = f_mat->data;
-	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>127)
-			data[i] = 128;
-		else if(tmp<-127)
-			data[i] = -127;
-		else
-			data[i] = tmp;
-
-	}
+		data[i] = round_saturate(fdata[i], -128, 127);
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -208,7 +207,7 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+		data[i] = round_saturate(fdata[i], -32768, 32767);
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -235,13 +234,7 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
-			data[i] =0;
-		else
-			data[i] = tmp;
-	}	
+		data[i] = round_saturate(fdata[i], 0, 65535);
 
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -268,17 +261,7 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	int tmp = 0;
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
-	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>255)
-			data[i] = 255;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
-
-	}	
+		data[i] = round_saturate(fdata[i], 0, 255);
 
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -306,14 +289,12 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>4294967295)
+		if(fdata[i]>=4294967296.0f)
 			data[i] =4294967295;
-		else if(tmp<0)
+		else if(!(fdata[i]>0))
 			data[i] = 0;
 		else
-			data[i] = tmp;
+			data[i] = llrint(fdata[i]);
 
 	}	
 
@@ -379,8 +360,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
 	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
+		dst_data[i] = saturate_cast_float2uchar(src_data[i]);
 	}
 	return dst;
 }
-- 
2.43.0


From f4947048cd58121bfeb0e109a5d1c0f918f24164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 038/108] fix: hypercv_atof ignored negative exponents and lost
 the sign before other text

---
 modules/process/src/c_src/datatypechange.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index e46e4ed..90443fe 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -383,7 +383,7 @@ float hypercv_atof(const char *str)
 
 	else if (*p == '+')
 		++p;
-	int hasDot = 0,hasE = 0;
+	int hasDot = 0,hasE = 0,expSign = 1;
 	float integerPart = 0.0,decimalPart = 0.0;
 
 	for (; *p; ++p)
@@ -403,12 +403,15 @@ float hypercv_atof(const char *str)
 			break;
 		}
 		else
-			return integerPart;
+			return sign * integerPart;
 	}
 
 	int decimalDigits = 1;
 	int exponential = 0;    
 
+	if (hasE && (*p == '-' || *p == '+'))
+		expSign = *p++ == '-' ? -1 : 1;
+
 	for (; *p; p++)
 	{
 		if (hasDot && isdigit(*p))
@@ -419,18 +422,19 @@ float hypercv_atof(const char *str)
 			decimalPart = 0.0;
 			hasE = 1;
 			++p;
+			if (*p == '-' || *p == '+')
+				expSign = *p++ == '-' ? -1 : 1;
 			break;
 		}
 		else if (hasE && isdigit(*p))
-			exponential = 10 * exponential + *p - '0';
+			exponential = exponential < 1000 ? 10 * exponential + *p - '0' : exponential;
 		else break;
 	}
 
 	if (hasE && hasDot)
-		for (; *p; p++)
-			if (isdigit(*p))
-				exponential = 10 * exponential + *p - '0';
-	return sign * (integerPart * pow(10, exponential) + decimalPart);
+		for (; isdigit(*p); p++)
+			exponential = exponential < 1000 ? 10 * exponential + *p - '0' : exponential;
+	return sign * (integerPart * pow(10, expSign * exponential) + decimalPart);
 
 }
 
-- 
2.43.0


From b23358e3ef5d4bd3a279fdfd25fcdd2bfe22e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 039/108] fix: the weights of rgb2gray did not add up to one

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From 2ac6315ed49478cae1c4662b96c784ccb71ee144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 040/108] fix: otsu read three channels of gray images and
 split above its own threshold

---
 modules/process/src/c_src/threshold.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..3e1393c 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,9 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp = data[i*step + j*channels];
+			if(channels == 3)
+				temp = data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
@@ -204,7 +206,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 	for(int i=0;i<rows*cols*channels;i++)
 	{
-		if(src_data[i]<thresh)
+		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
 		else
 			dst_data[i] = 255;
-- 
2.43.0


From dcd4c0a6f6efd876d67de5c34b87eea842fbe905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 041/108] fix: flip handled only images of bytes

---
 .../process/src/c_src/GeometricTransformation.c    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..9fbf2c6 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -13,15 +13,16 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
-	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
+	int pixel = channels * get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
-			for(int k=0;k<channels;k++)
-			dst_data[i*cols*channels+j*channels+k] = src_data[i*cols*channels+(cols-1-j)*channels+k];
+			for(int k=0;k<pixel;k++)
+			dst_data[i*cols*pixel+j*pixel+k] = src_data[i*cols*pixel+(cols-1-j)*pixel+k];
 }
 
 
@@ -32,14 +33,15 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int channels = src_mat->channels;
-	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
+	int pixel = channels * get_elemsize(src_mat->data_type);
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
 	for(int i=0;i<rows;i++)
-		for(int j=0;j<cols*channels;j++)
-				dst_data[i*cols*channels+j] = src_data[(rows-1-i)*cols*channels+j];
+		for(int j=0;j<cols*pixel;j++)
+				dst_data[i*cols*pixel+j] = src_data[(rows-1-i)*cols*pixel+j];
 	
 }
 
-- 
2.43.0


From 424f1201ae55b656c64e71016394fac573254108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 042/108] fix: the pyramids leaked their temporary images

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 9fbf2c6..d8e69e7 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -102,6 +102,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
 	
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -150,6 +151,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(kernel);
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 20f98e73c0f9fdfd17a98e47a074808b90e995fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 043/108] fix: hyper_mat_rotate wrote outside of the rotated
 image

---
 modules/process/src/c_src/GeometricTransformation.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index d8e69e7..6694af5 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -187,9 +187,6 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 
 	hyper_mat dst_mat = create_hyper_mat_with_data(width, height, mat->bands,mat->data_type, mat->interleave, NULL, mat->wavelength);
 
-	int di = x0 + width / 2;
-	int dj = y0 + height / 2;
-	
 	unsigned char* src_data = (unsigned char*)mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 	
@@ -199,8 +196,11 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	{
 		for(int j=0;j<mat->samples;j++)
 		{
-            int x = i * c + j * s + di;
-			int y = j * c - i * s + dj;
+			//x is the line and y the sample of the rotated center of the pixel.
+            int x = floor((i + 0.5 - h) * c + (j + 0.5 - w) * s + height / 2.0);
+			int y = floor((j + 0.5 - w) * c - (i + 0.5 - h) * s + width / 2.0);
+			if(x < 0 || x >= height || y < 0 || y >= width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
-- 
2.43.0


From 94a3feab27d8ad3f10af0b030705cdc67ade5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 044/108] fix: spectral_angle_mapper truncated the products and
 returned NaN for equal spectra

---
 modules/process/src/c_src/spectralprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..848e4b7 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -93,12 +93,14 @@ float spectral_angle_mapper(float * x, float * y, int length)
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
+		XY += fabs(x[i] * y[i]);
 		X += (x[i])*(x[i]);
 		Y += (y[i])*(y[i]);
 	}
 
-	res = acos(XY / sqrt(X*Y));
+	res = XY / sqrt(X*Y);
+	//rounding may exceed the domain of acos
+	res = acos(res > 1 ? 1 : res);
 
 	return res;
 }
-- 
2.43.0


From 579d63fb2900c261cfa3340a5031fa0b1816ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 045/108] fix: spectrum_SAM_match marked the spectra that do
 not match

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 848e4b7..e9ead2f 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -66,7 +66,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 
 			smat = (char*)match_image->data + i*samples +j;
 			
-			if(res>=threshold)
+			if(res<=threshold)
 				*smat = 1;
 			else
 				*smat = 0;
-- 
2.43.0


From aa484e44a94481200b40e9d342d82f397bc10461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 046/108] fix: read_spectrum_file wrote past its buffer and
 hung on text

---
 modules/process/src/c_src/spectralprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index e9ead2f..6d065e4 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -117,13 +117,14 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
-	float* spectrum = (float*)malloc(length*sizeof(float));
+	float* spectrum = (float*)calloc(length, sizeof(float));
+	hypercv_assert(spectrum != NULL, "malloc fail");
 
 	float* sp = spectrum;
 
 	float temp = 0;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	while (sp < spectrum + length && fscanf(fp, "%f", &temp) == 1)
 	{
 		*sp = temp;
 		sp++;
-- 
2.43.0


From d6eb8e86034a784a5fbe2bb724f807b74281a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 047/108] fix: set_wavelet_base accepted every wave type

---
 modules/process/src/c_src/dwt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index 90063bc..e07b766 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -118,7 +118,7 @@ void wt_info_free(wt_info* wt_if)
 
 wavelet_base* set_wavelet_base(int wave_type)
 {
-	hypercv_assert(wave_type!=HYPERCV_WAVE_DB3||wave_type!=HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
+	hypercv_assert(wave_type==HYPERCV_WAVE_DB3||wave_type==HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
 	
-- 
2.43.0


From 24b294e2769d048a508da74ebded4313024804ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 048/108] fix: cal_edge_signal_energy overwrote the channels
 and the type of its input

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 4b895269515286b9a20a210f549bea413efc69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 049/108] fix: HisEqualization accumulated the scaled instead
 of the original histogram

---
 modules/algorithm/src/HisEqualization.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..affd169 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -21,16 +21,16 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	unsigned char* data = (unsigned char*) src_mat ->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat ->data;
 
-	int hist[256] = {0};
+	long hist[256] = {0};
 	
 	for(int i=0; i<rows*cols; i++)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
-	{
 		hist[i] += hist[i-1];
+
+	for(int i=0; i<256; i++)
 		hist[i] = hist[i]*255/(rows*cols);
-	}
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From cd3c09aa5f7540e7c78dd18ff634faa5e4286cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 050/108] fix: hyper_mat_linear_tension mishandled negative and
 constant bands

---
 modules/algorithm/src/HisEqualization.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index affd169..d380b0d 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -4,6 +4,7 @@
 	> Mail: jimin@iscas.ac.cn
  ************************************************************************/
 #include "precomp.h"
+#include <float.h>
 
 /**            
  * @brief      function to hisequalization 
@@ -53,8 +54,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = -FLT_MAX;
+		mindata = FLT_MAX;
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
@@ -68,8 +69,13 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 					mindata = tmp;
 			}
 		}
-		float m = 255/(maxdata-mindata);
-		float n = -mindata*255/(maxdata-mindata);
+		float m = 0;
+		float n = 0;
+		if(maxdata > mindata)
+		{
+			m = 255/(maxdata-mindata);
+			n = -mindata*255/(maxdata-mindata);
+		}
 		for(int i=0; i<lines;i++)
 		{
 			for(int j=0; j<samples; j++)
-- 
2.43.0


From d6c787a75c9730d6a4769b39c8c00a72e60e53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 051/108] fix: normalising float images rounded them to 0..255
 and ignored negative peaks

---
 modules/algorithm/src/normalize.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..60cf616 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -100,7 +100,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] =src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,16 +108,16 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
@@ -131,7 +131,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
 
-- 
2.43.0


From fd09ac1df0130be660594984ef42337b63c21553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 052/108] fix: hypercv_normalize returned NaN for zero or
 constant images and lost precision of large ones

---
 modules/algorithm/src/normalize.c | 34 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 60cf616..88a492d 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -41,19 +41,20 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 
 	if(norm_type == NORM_L1)
 	{
-		float L1_norm = 0;
+		double L1_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] =saturate_cast_float2uchar(L1_norm>0?src_data[i]*alpha/L1_norm:0);
 	}
 	if(norm_type == NORM_L2)
 	{
-		float L2_norm = 0;
+		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			L2_norm += src_data[i]*src_data[i];
+			L2_norm += (double)src_data[i]*src_data[i];
+		L2_norm = sqrt(L2_norm);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = saturate_cast_float2uchar(L2_norm>0?src_data[i]*alpha/L2_norm:0);
 	}
 
 	if(norm_type == NORM_INF)
@@ -62,11 +63,11 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = saturate_cast_float2uchar(INF_norm>0?src_data[i]*alpha/INF_norm:0);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
@@ -76,7 +77,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = saturate_cast_float2uchar(maxsrc>minsrc?(src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a:a);
 	}
 }
 
@@ -96,19 +97,20 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 
 	if(norm_type == NORM_L1)
 	{
-		float L1_norm = 0;
+		double L1_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =src_data[i]*alpha/L1_norm;
+			dst_data[i] =L1_norm>0?src_data[i]*alpha/L1_norm:0;
 	}
 	if(norm_type == NORM_L2)
 	{
-		float L2_norm = 0;
+		double L2_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			L2_norm += src_data[i]*src_data[i];
+			L2_norm += (double)src_data[i]*src_data[i];
+		L2_norm = sqrt(L2_norm);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
+			dst_data[i] = L2_norm>0?src_data[i]*alpha/L2_norm:0;
 	}
 
 	if(norm_type == NORM_INF)
@@ -117,11 +119,11 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = src_data[i]*alpha/INF_norm;
+			dst_data[i] = INF_norm>0?src_data[i]*alpha/INF_norm:0;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
@@ -131,7 +133,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
+			dst_data[i] = maxsrc>minsrc?(src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a:a;
 	}
 }
 
-- 
2.43.0


From 3e0a6b716590c6b2d17172e7e9c3057c00f606fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 053/108] fix: k_means stopped as soon as all centers moved up
 and left

---
 modules/algorithm/src/cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..5b98d63 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -88,7 +88,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].x = v2[k].x / num[k];
 		    v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
-- 
2.43.0


From 4102b3e7505fa7a9d80809a422d97953fbabaf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 054/108] fix: k_means leaked the gray image

---
 modules/algorithm/src/cluster.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 5b98d63..9f909d2 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -101,4 +101,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From 17fac66b9d1ad1c0702de469a6ea2fd87adde150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 055/108] fix: hypercv_magnitude read the imaginary part of
 other elements

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From 9c8c26ab99bb6a4da6cd66cc1cd42090dab47647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 056/108] fix: idft did not invert dft: wrong scale, ushort
 saturated at 255

---
 modules/algorithm/src/dft.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..0afa89b 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -189,7 +189,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
@@ -222,7 +222,9 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			//saturate to the range of unsigned short
+			real = real / (rows*cols);
+			dst_data[i*cols+j] = real>65535?65535:(real<0?0:(unsigned short)HYPERCV_ROUND(real));
 		}
 	}
 }
-- 
2.43.0


From 611b8d6403f32b4048bdf8d66e2586be75086f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 057/108] fix: hyper_mat_cem passed the output of its products
 as an input

---
 modules/algorithm/src/cem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..b9cfea9 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -43,9 +43,9 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -53,7 +53,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From 0b65f991584028c95a31f40910513a71cfef377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 058/108] fix: hypercv_match_shapes leaked the moments

---
 modules/algorithm/src/shapematch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..ace2a6d 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -114,6 +114,9 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From 89f05966f79e3b9d34ab160e5677da2a106264f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 059/108] fix: images without a shape had undefined moments

---
 modules/algorithm/src/shapematch.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index ace2a6d..d7f1f4c 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -15,7 +15,7 @@ static double calc_similar_hu(double* hu1, double* hu2)
 		tmp1 += fabs(hu1[i]-hu2[i]);
 		tmp2 += fabs(hu1[i]+hu2[i]);
 	}
-	res = 1-tmp1/tmp2;
+	res = tmp2>0?1-tmp1/tmp2:1;
 	return res;
 
 }
@@ -54,6 +54,13 @@ void calc_hu_moment(double* hu,simple_mat mat)
 			s00+=data[j*step+i];
 		}
 	}
+	//no shape
+	if(s00==0)
+	{
+		for(i=0;i<7;i++)
+			hu[i]=0;
+		return;
+	}
 	Center_x=(int)(s10/s00+0.5);
 	Center_y=(int)(s01/s00+0.5);
 
-- 
2.43.0


From 30092781b4eb1f1db48bd33d7bc6f2a0036a1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 060/108] fix: hyper_mat_pca did not project on the principal
 components

---
 modules/algorithm/src/pca.c | 70 +++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..f661643 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -6,27 +6,31 @@
 #include "precomp.h"
 //________private function________________
 
-static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat res_mat)
+static void cal_covariance_matrix(simple_mat x, simple_mat res_mat)
 {//only for float
 
-	int samples = mean_mat->cols;
-	int lines = mean_mat->rows;
+	int pixels = x->rows;
 	int bands = x->cols;
 
 	float* x_data = (float*)x->data;
-	float* mean_data = (float*)mean_mat->data;
 	float* res_data = (float*)res_mat->data;
 	
-	for(int i=0;i<samples*lines;i++)
-		for (int j=0;j<bands;j++)
-			 x_data[i*bands+j] -= mean_data[i];
+	for (int j=0;j<bands;j++)
+	{
+		double mean = 0;
+		for(int i=0;i<pixels;i++)
+			mean += x_data[i*bands+j];
+		mean /= pixels;
+		for(int i=0;i<pixels;i++)
+			x_data[i*bands+j] -= mean;
+	}
 
-	simple_mat t = create_simple_mat(bands,samples*lines,4,1);
+	simple_mat t = create_simple_mat(bands,pixels,4,1);
     simple_mat_transport(t,x);
 
 	float* t_data = (float*)t->data;
 	
-	MulMatrix_float(t_data,x_data,res_data,bands,lines*samples,bands);
+	MulMatrix_float(t_data,x_data,res_data,bands,pixels,bands);
 	
 	delete_simple_mat(t);
 }
@@ -36,38 +40,50 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-//计算平均图像	
-	simple_mat mean_mat = create_simple_mat(lines,samples,4,1);
-	hyper_mat_mean(bip_mat,mean_mat);
-//计算自相关矩阵
+//计算协方差矩阵
 	simple_mat reshape_mat = reshape_hypermat_2_simplemat(bip_mat,samples*lines,bands);
 	simple_mat cov_mat = create_simple_mat(bands,bands,4,1);
-	cal_covariance_matrix(reshape_mat,mean_mat,cov_mat);
+	cal_covariance_matrix(reshape_mat,cov_mat);
 
 	simple_mat temp = simple_mat_copy(cov_mat);
 	simple_mat q_mat = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1);
 	simple_mat r_mat = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1); 
+	simple_mat eigen_vector = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1);
+	simple_mat product = create_simple_mat(cov_mat->rows,cov_mat->cols,4,1);
+	set_identity_matrix_float((float*)eigen_vector->data,bands);
 
 	for(int i=0;i<iteration;i++)//迭代qr分解
 	{
 		matrix_QR_float((float*)temp->data,(float*)q_mat->data,(float*)r_mat->data,bands);
-		MulMatrix_float((float*)q_mat->data,(float*)r_mat->data,(float*)temp->data,bands,bands,bands);
+		MulMatrix_float((float*)r_mat->data,(float*)q_mat->data,(float*)temp->data,bands,bands,bands);
+		//特征向量
+		MulMatrix_float((float*)eigen_vector->data,(float*)q_mat->data,(float*)product->data,bands,bands,bands);
+		memcpy(eigen_vector->data,product->data,bands*bands*sizeof(float));
 	}
-	//计算特征值，特征向量
-	float* evalue = (float*)malloc(bands*sizeof(float));
-
-	for(int k=0;k<bands;k++)
-		evalue[k] = ((float*)temp->data)[k*bands+k];
-	//特征值排序
-	sort_array_down_float(evalue,bands);
+	//按特征值排序特征向量
+	float* evalue = (float*)temp->data;
+	float* vector_data = (float*)eigen_vector->data;
 
-	simple_mat eigen_vector = simple_mat_copy(q_mat);
-
-	cal_eigen_vector_float((float*)cov_mat->data,(float*)eigen_vector->data,evalue,bands,bands);
+	for(int k=0;k<bands-1;k++)
+	{
+		int max = k;
+		for(int l=k+1;l<bands;l++)
+			if(evalue[l*bands+l]>evalue[max*bands+max])
+				max = l;
+		float swap = evalue[k*bands+k];
+		evalue[k*bands+k] = evalue[max*bands+max];
+		evalue[max*bands+max] = swap;
+		for(int i=0;i<bands;i++)
+		{
+			swap = vector_data[i*bands+k];
+			vector_data[i*bands+k] = vector_data[i*bands+max];
+			vector_data[i*bands+max] = swap;
+		}
+	}
 
 	MulMatrix_float((float*)reshape_mat->data,(float*)eigen_vector->data,(float*)res_bip_mat->data,samples*lines,bands,bands);
 
@@ -77,7 +93,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 
 	TransMatrix_float(eigen_vector_q->data,transport_eigen_vector_q->data,eigen_vector_q->rows,eigen_vector_q->cols);
 */
-	delete_simple_mat(mean_mat);
+	delete_simple_mat(product);
 	delete_simple_mat(cov_mat);
 	delete_simple_mat(reshape_mat);
 	delete_simple_mat(r_mat);
-- 
2.43.0


From bf3f682a98cc3ea44d5f5ae45b2c6d9d9aa4cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 061/108] fix: HyMat used uninitialised members, the empty
 HyMat could not be constructed

---
 modules/core/include/cxx_include/hypermat.hpp | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..164b949 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -27,19 +27,19 @@ namespace hypercv
 			/* 
 			 * HYPER_MAT 
 			 * */
-			int          lines;
-			int          samples;
-			int          bands;
-			int          dataType;
-			int          format;
+			int          lines = 0;
+			int          samples = 0;
+			int          bands = 0;
+			int          dataType = HYPERCV_UCHAR;
+			int          format = HYPERCV_BSQ;
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
-			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			char         interleave[3] = {'b', 's', 'q'};
+			void*        data = NULL;
+			float*       wavelength = NULL;
 
-			int          elemSize;
-			long int     dataSize;
+			int          elemSize = 1;
+			long int     dataSize = 0;
 
 			HyMat();
 
@@ -82,7 +82,6 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
-- 
2.43.0


From b56336c1e1d160f09af9795cf0ac8d9a90cb3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 062/108] fix: HyMat checked its old members instead of the new
 size, type and format

---
 modules/core/include/cxx_include/hypermat.hpp | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 164b949..559e65c 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -120,17 +120,17 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
@@ -326,17 +326,17 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
 			release();
@@ -359,7 +359,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
-- 
2.43.0


From 7bb5fe54edb5c1b9bd6d82ddc73ae45b1cec5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 063/108] fix: a released HyMat kept its data size, which
 overflowed int for cubes over 2GiB

---
 modules/core/include/cxx_include/hypermat.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 559e65c..24c82dd 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -161,7 +161,7 @@ namespace hypercv
 		}
 
 		elemSize  = get_elemsize(dataType);
-		dataSize  = samples * lines * bands * elemSize;
+		dataSize  = (long int)samples * lines * bands * elemSize;
 
 		if(_data)
 			data = _data;
@@ -364,6 +364,8 @@ namespace hypercv
 		if(_format == format)
 			return;
 
+		hypercv_assert(empty() == 0, "mat can not be empty");
+
 		char* srcData = (char*)data;
 		char* dstData = (char*)malloc(dataSize);
 
@@ -448,6 +450,7 @@ namespace hypercv
 		data = NULL;
 		wavelength = NULL;
 		samples = lines = bands = dataType = 0;
+		dataSize = 0;
 
 	}
 
-- 
2.43.0


From 425093c84b85377410a8f808c541a2bf52fec1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 064/108] fix: HyMat::range read outside of the image

---
 modules/core/include/cxx_include/hypermat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 24c82dd..1c5906a 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -477,6 +477,8 @@ namespace hypercv
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
+		hypercv_assert(startCol>=0 && startRow>=0 && startBand>=0, "start col & start row & start band must >= 0");
+		hypercv_assert(endCol<=samples && endRow<=lines && endBand<=bands, "end col & end row & end band must be inside of the image");
 
 		int newSamples = endCol - startCol;
 		int newLines = endRow - startRow;
-- 
2.43.0


From e27247a3a1dbac3c0624e6c04d5f3073350b54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 065/108] fix: HyMat::save wrote the header to another name and
 ignored failures

---
 modules/core/include/cxx_include/hypermat.hpp | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 1c5906a..21cf67c 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -243,6 +243,8 @@ namespace hypercv
 
 		char** papszOptions = NULL;
 		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
+		if(dataSet != NULL)
+			GDALClose(dataSet);
 
 		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
 		//todo	
@@ -250,24 +252,27 @@ namespace hypercv
 
 		FILE* _fp;
 		_fp = fopen(filePath, "wb");
-		if(_fp == NULL)
-		{
-			return;
-			printf("can not open files\n");
-		}
-		fwrite(data, elemSize, samples * lines * bands, _fp);
+		hypercv_assert(_fp != NULL, "can not open file");
+		size_t written = fwrite(data, 1, dataSize, _fp);
+		int closed = fclose(_fp);
+		hypercv_assert(written == (size_t)dataSize && closed == 0, "can not write file");
 		this->writeHdr(filePath);
-		fclose(_fp);
 
 	}
 
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		//replace the extension of the file name, if it has one
+		size_t name = path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1;
+		size_t dot = path.rfind('.');
+		if(dot != std::string::npos && dot > name)
+			path = path.substr(0, dot);
+		path += ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
+		hypercv_assert(fp != NULL, "can not open hdr file");
 
 		fputs("ENVI\n", fp);
 		fputs("samples = ", fp); fprintf(fp, "%d\n", samples);
@@ -287,7 +292,9 @@ namespace hypercv
 		{
 			fputs("wavelength = unknown \n",fp);
 		}
-		fclose(fp);
+		int failed = ferror(fp);
+		int closed = fclose(fp);
+		hypercv_assert(failed == 0 && closed == 0, "can not write hdr file");
 	}
 
 	inline void HyMat::open(const char* imagePath, const char* hdrPath)
-- 
2.43.0


From 664875db1298cc2612ac0b973fa02f955b0cf656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 066/108] fix: readHdr overran its buffer and misread items and
 wavelengths

---
 modules/core/src/cxx_src/hypermat.cpp | 57 +++++++++++++++++----------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..e453f29 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -45,6 +45,20 @@ namespace hypercv
 	}
 #endif
 
+	//1 if the line sets the item of this name.
+	static int isItem(const string& line, const char* name)
+	{
+		size_t end = line.find('=');
+		if(end == string::npos)
+			return 0;
+
+		size_t start = line.find_first_not_of(" \t");
+		while(end > start && (line[end-1] == ' ' || line[end-1] == '\t'))
+			end--;
+
+		return line.compare(start, end - start, name) == 0;
+	}
+
 	void readHdr(const char* hdrPath, int& samples, int& lines, int& bands,  int& dataType, int& format, float* wavelength)
 	{
 		if(hdrPath == NULL)
@@ -62,50 +76,51 @@ namespace hypercv
 		while (getline(file,lineBuff))
 		{  
 			const char* line = lineBuff.c_str();
-			char item[20];
-			sscanf(line, "%[^=]", item);
 
-			if (cmpstr(item, (char*)"samples") == 1)
+			if (isItem(lineBuff, "samples"))
 				sscanf(line, "%*[^=]=%d",&samples);
 
-			else if (cmpstr(item, (char*)"lines") == 1)
+			else if (isItem(lineBuff, "lines"))
 				sscanf(line, "%*[^=]=%d",&lines);
 
-			else if (cmpstr(item, (char*)"bands") == 1)
+			else if (isItem(lineBuff, "bands"))
 				sscanf(line, "%*[^=]=%d", &bands);
 
-			else if (cmpstr(item, (char*)"data") == 1)
+			else if (isItem(lineBuff, "data type"))
 				sscanf(line, "%*[^=]=%d", &dataType);
 
-			else if (lineBuff.find("interleave")!=lineBuff.npos)
+			else if (isItem(lineBuff, "interleave"))
 			{
-				if(lineBuff.find("q")!=lineBuff.npos)
+				char value[4] = "";
+				sscanf(line, "%*[^=]= %3s", value);
+				if(strcasecmp(value, "bsq") == 0)
 					format = HYPERCV_BSQ;
-				else if(lineBuff.find("p")!=lineBuff.npos)
+				else if(strcasecmp(value, "bip") == 0)
 					format = HYPERCV_BIP;
-				else 
+				else if(strcasecmp(value, "bil") == 0)
 					format = HYPERCV_BIL;
+				else
+					format = -1;
 			}
-			else if (lineBuff.find("wavelength = {")!=lineBuff.npos)
+			else if (isItem(lineBuff, "wavelength") && wavelength != NULL)
 			{	
 				string waveBuff, s;
 				stringstream ss;
+				if(lineBuff.find('{')==lineBuff.npos)
+					continue;
+				lineBuff = lineBuff.substr(lineBuff.find('{')+1);
 				do
 				{
-					int startIndex, endIndex;
-
-					startIndex = lineBuff.find('{')==lineBuff.npos?0:lineBuff.find('{')+1;
-					endIndex = lineBuff.find('}')==lineBuff.npos?lineBuff.size():lineBuff.find('}');
-					waveBuff += lineBuff.substr(startIndex,endIndex);
+					//the values are separated by commas, spaces or lines
+					waveBuff += lineBuff.substr(0,lineBuff.find('}')) + ' ';
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
+				for(size_t i=0;i<waveBuff.size();i++)
+					if(waveBuff[i] == ',')
+						waveBuff[i] = ' ';
 				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
-				{
-					ss>>s;
+				for(int i=0;i<bands&&ss>>s;i++)
 					wavelength[i] = atof(s.c_str());
-				}
-
 			}
 		}
 
-- 
2.43.0


From 60f4df2c6bd299bbe9c238775ca64cb21c7973e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 067/108] fix: HyMat::open read past its buffer, lost the
 wavelengths and hid short or missing files

---
 modules/core/include/cxx_include/hypermat.hpp | 32 ++++++++-----------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 21cf67c..c6f0420 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -308,27 +308,21 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
-
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
-
-		create();
-
-		FILE* _fp = NULL;
-		_fp = fopen(imagePath, "r");
-
+		FILE* _fp = fopen(hdrPath, "r");
 		if (_fp == NULL )
 		{
 			printf("can not open file\n");
 			return ;
 		}
-
-		fread(data, elemSize, dataSize, _fp);
 		fclose(_fp);
+
+		int _samples = 0, _lines = 0, _bands = 0, _dataType = 0, _format = -1;
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, NULL);
+
+		open(imagePath, _samples, _lines, _bands, _dataType, _format);
+
+		if (empty() == 0)
+			readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, wavelength);
 	}
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
@@ -348,8 +342,6 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		create(_samples, _lines, _bands, _dataType, _format);
-
 		FILE* _fp = NULL;
 		_fp = fopen(path ,"r");
 
@@ -359,9 +351,11 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
-		fclose(_fp);
+		create(_samples, _lines, _bands, _dataType, _format);
 
+		size_t count = fread(data, 1, dataSize, _fp);
+		fclose(_fp);
+		hypercv_assert(count == (size_t)dataSize, "file is too short");
 	}
 
 	inline void HyMat::convertTo(int _format)
-- 
2.43.0


From c0bec1b705d64fa775274e53cc2985eb33dea712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 068/108] fix: mats whose size overflows 64 bits were allocated
 too small

---
 modules/core/include/cxx_include/hypermat.hpp | 3 +++
 modules/core/src/c_src/hypermat.c             | 1 +
 modules/core/src/c_src/simplemat.c            | 1 +
 3 files changed, 5 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index c6f0420..7dc05db 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -132,6 +132,8 @@ namespace hypercv
 				_dataType == 15 , " data type error");
 		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
+		hypercv_assert((double)_samples * _lines * _bands * get_elemsize(_dataType) < INT64_MAX / 2, "HyMat is too large");
+
 		if(data)
 			release();
 
@@ -168,6 +170,7 @@ namespace hypercv
 		else 
 		{
 			data = (void*)malloc(dataSize);
+			hypercv_assert(data != NULL, "fail to allocate memory for HyMat");
 			memset(data, 0, dataSize);
 		}
 
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6610d6c..28f314b 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -182,6 +182,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
 	hypercv_assert(elem_size > 0, "the data type of hyper mat is not supported.");
+	hypercv_assert((double)samples * lines * bands * elem_size < INT64_MAX / 2, "the hyper mat is too large");
     
 	long int mat_data_size = (long int)samples * lines * bands * elem_size;
 	long int wave_data_size = bands * sizeof(float);
diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 4bf8fdc..0679660 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -33,6 +33,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	size_t memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
 	hypercv_assert(elem_size > 0, "the data type of mat is not supported");
+	hypercv_assert((double)rows * cols * elem_size * channels < INT64_MAX / 2, "the mat is too large");
 
 	size_t data_size = (size_t)rows * cols * elem_size * channels; 
 	if (data == NULL)
-- 
2.43.0


From 1a7502a35b16fb4b3ad73bec7c967c4965d53c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 069/108] fix: draw_line drew another line, in another color
 order, and nothing on gray images

---
 modules/highgui/src/draw.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..6ebbc45 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,29 +59,31 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
-	float b = (float)pt1.y-k*pt1.x;
+	//one step per pixel of the longer side
+	int dx = pt2.x-pt1.x;
+	int dy = pt2.y-pt1.y;
+	int steps = abs(dx)>abs(dy)?abs(dx):abs(dy);
 
-	for(int i=0;i<rows;i++)
+	for(int s=0;s<=steps;s++)
 	{
-		for(int j=0;j<cols;j++)
+		int j = steps>0?(int)floor(pt1.x+(double)dx*s/steps+0.5):pt1.x;
+		int i = steps>0?(int)floor(pt1.y+(double)dy*s/steps+0.5):pt1.y;
+
+		if(i<0||i>=rows)
+			continue;
+
+		for(int t=-thickness/2;t<=thickness/2;t++)
 		{
-			if(i==(int)(j*k+b+0.5))
+			if(j+t>=0&&j+t<cols)
 			{
-				for(int t=-thickness/2;t<=thickness/2;t++)
+				if(channels ==3)
 				{
-					if(j+t>=0&&j+t<cols)
-					{
-						if(channels ==3)
-						{
-							dst_data[i*cols*channels+(j+t)*channels] = color.r;
-							dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
-							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
-						}
-						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
-					}
+					dst_data[i*cols*channels+(j+t)*channels] = color.b;
+					dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
+					dst_data[i*cols*channels+(j+t)*channels+2] = color.r;
 				}
+				else if(channels == 1)
+					dst_data[i*cols+(j+t)] = color.r;
 			}
 		}
 	}
-- 
2.43.0


From 16b250ecb6de34e334c7ee527ca6a4f039df9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 070/108] fix: failed allocations were used unchecked

---
 modules/algorithm/src/cem.c                   | 1 +
 modules/algorithm/src/cluster.c               | 1 +
 modules/algorithm/src/shapematch.c            | 2 ++
 modules/core/include/cxx_include/hypermat.hpp | 2 ++
 modules/core/src/c_src/hypermat.c             | 1 +
 modules/process/src/c_src/dwt.c               | 4 ++--
 modules/process/src/c_src/filter.c            | 1 +
 modules/process/src/c_src/matrixprocess.c     | 3 +++
 modules/process/src/c_src/spectralprocess.c   | 1 +
 9 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index b9cfea9..0a7a37f 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -42,6 +42,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir1 = (float*)malloc(bands * sizeof(float));
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
+	hypercv_assert(fir1 != NULL && fir2 != NULL && fir3 != NULL, "failed to allocate memory");
 
 	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
 	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 9f909d2..866c06d 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -39,6 +39,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 
 
 	int* num = (int*)malloc(kind * sizeof(int));	
+	hypercv_assert(v2 != NULL && num != NULL, "failed to allocate memory");
  
 	srand((unsigned)time(NULL));
 
diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index d7f1f4c..48be00e 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -25,6 +25,7 @@ void calc_hu_moment(double* hu,simple_mat mat)
 {
 	if(hu==NULL)
 		hu = (double*)malloc(7*sizeof(double));
+	hypercv_assert(hu != NULL, "failed to allocate memory");
 
 	hypercv_assert(mat!=NULL,"input mat cannot be NULL");
 
@@ -115,6 +116,7 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double* hu1 = (double*)malloc(7*sizeof(double));
 	double* hu2 = (double*)malloc(7*sizeof(double));
+	hypercv_assert(hu1 != NULL && hu2 != NULL, "failed to allocate memory");
 
 	calc_hu_moment(hu1,mat1);
 	calc_hu_moment(hu2,mat2);
diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 7dc05db..1a162c8 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -179,6 +179,7 @@ namespace hypercv
 		else
 		{
 			wavelength = (float*)malloc(bands*sizeof(float));
+			hypercv_assert(wavelength != NULL, "fail to allocate memory for HyMat");
 			memset(wavelength, 0, bands*sizeof(float));
 		}	
 	}
@@ -372,6 +373,7 @@ namespace hypercv
 
 		char* srcData = (char*)data;
 		char* dstData = (char*)malloc(dataSize);
+		hypercv_assert(dstData != NULL, "fail to allocate memory for HyMat");
 
 		long int dstIndex, srcIndex; 
 
diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 28f314b..14ed8e6 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -347,6 +347,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 	}
 
 	char* hdr_path = (char*)malloc((len + 5)*sizeof(char));
+	hypercv_assert(hdr_path != NULL, "failed to allocate memory");
 
 	for (int i = 0; i < len; i++)
 		hdr_path[i] = img_path[i];
diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index e07b766..d158034 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -27,8 +27,7 @@ static double* SerialReverse(double * src, int len)
 	double * result = NULL;
 
 	result = (double *) calloc(len, sizeof(double));
-	if (!result)
-		exit(1);
+	hypercv_assert(result != NULL, "failed to allocate memory");
 
 	for (i = 0; i < len; i++)
 		result[i] = src[len-i-1];
@@ -121,6 +120,7 @@ wavelet_base* set_wavelet_base(int wave_type)
 	hypercv_assert(wave_type==HYPERCV_WAVE_DB3||wave_type==HYPERCV_WAVE_BIOR3_7,"ERROR WAVE TYPE")
 	wavelet_base *wb;
 	wb = (wavelet_base*) calloc(1,sizeof(wavelet_base));
+	hypercv_assert(wb != NULL, "failed to allocate memory");
 	
 	switch(wave_type)
 	{
diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index e3793ec..80cfcf2 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -155,6 +155,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
 	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
+	hypercv_assert(arr != NULL, "failed to allocate memory");
 
 	for(int i=0;i<rows;i++)
 	{
diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 6ae2041..f6b45a4 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -248,6 +248,7 @@ float matrix_norm_float(float* m,int size)
 void matrix_QR_float(float* a, float* q, float *r,int m)
 {
 	float* col_q = (float*)malloc(m*sizeof(float));
+	hypercv_assert(col_q != NULL, "failed to allocate memory");
 
 	for (int j=0;j<m;j++)
 	{
@@ -276,6 +277,7 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
 {
 	float* temp = (float*)malloc(m*n*sizeof(float));
+	hypercv_assert(temp != NULL, "failed to allocate memory");
 	float evalue ;
 
 	for(int count =0;count < n;count++)
@@ -397,6 +399,7 @@ void swap_rows_float(float* data, int m,int n, int r1, int r2)
 	hypercv_assert(r1!=r2,"select row can not equal");
 
 	float* tmp =(float*)malloc(n*sizeof(float));
+	hypercv_assert(tmp != NULL, "failed to allocate memory");
 	float* dr1 = data + r1*n;
 	float* dr2 = data + r2*n;
 
diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 6d065e4..ec95579 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -53,6 +53,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	char*  smat;
 
 	float* temp = (float*)malloc(sizeof(float)*bands);
+	hypercv_assert(temp != NULL, "failed to allocate memory");
 
 	for (int i = 0; i < lines; i++)
 	{
-- 
2.43.0


From 631ec5ac50caef15efdcbd3ff0749aa75898f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 071/108] fix: satellite orbits were written through an
 uninitialised pointer and used unset times and anomalies

---
 modules/satellite/src/satellite_orbit.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 7ee8954..15f05eb 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -43,7 +43,8 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 		long double cic,
 		long double omegadot)
 {
-	sat_orbit orb;
+	sat_orbit orb = (sat_orbit)malloc(sizeof(SATELLITE_ORBIT));
+	hypercv_assert(orb != NULL, "failed to allocate memory");
 	orb->as = as;
 	orb->es = es;
 	orb->omega = omega;
@@ -65,12 +66,14 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	orb->n0 = sqrt(bGM84 / (as*as*as));
 	orb->n = orb->n0 + orb->delta_n;
 
+	orb->tk = orb->t - orb->toe;
 	orb->Mk = orb->M0 + orb->n*orb->tk;
 
+	orb->E = orb->Mk;
 	for (int i = 0; i < 10; i++)
 		orb->E = orb->Mk + orb->es*sin(orb->E);
 
-	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* (tan(orb->E)) / 2);
+	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* tan(orb->E / 2));
 
 	orb->phik = orb->f + orb->ws;
 
-- 
2.43.0


From d8da5240049fcb7a16448ee84052f0efa71841aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 072/108] fix: index cubes of more than 2 GiB with size_t in
 the layout conversions

---
 modules/process/src/c_src/imageprocess.c | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 7f013c9..b799b07 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -99,7 +99,7 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bil_index = 0, bsq_index = 0;
+	size_t bil_index = 0, bsq_index = 0;
 
 	for (int k=0; k<bands; k++)
 	{
@@ -107,8 +107,8 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 		{
 			for (int j=0; j<samples; j++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
+				bil_index = ((size_t)i*samples*bands + (size_t)k*samples + j)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + (size_t)i*samples + j)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bsq_data[bsq_index + t] = bil_data[bil_index + t];
@@ -149,7 +149,7 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	size_t bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -157,8 +157,8 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bil_index = ((size_t)i*samples*bands + (size_t)k*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + (size_t)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bip_data[bip_index + t] = bil_data[bil_index + t];
@@ -199,7 +199,7 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bsq_index = 0, bil_index = 0;
+	size_t bsq_index = 0, bil_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -207,8 +207,8 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 		{
 			for (int j=0;j<samples; j++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + (size_t)i*samples + j)*elem_size;
+				bil_index = ((size_t)i*samples*bands + (size_t)k*samples + j)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bil_data[bil_index + t] = bsq_data[bsq_index + t];
@@ -250,7 +250,7 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	size_t bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -258,8 +258,8 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + (size_t)i*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + (size_t)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bip_data[bip_index + t] = bsq_data[bsq_index + t];
@@ -300,7 +300,7 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	size_t bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -308,8 +308,8 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + (size_t)i*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + (size_t)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bsq_data[bsq_index + t] = bip_data[bip_index + t]  ;
@@ -348,7 +348,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	size_t bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -356,8 +356,8 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bil_index = ((size_t)i*samples*bands + (size_t)k*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + (size_t)j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bil_data[bil_index + t] = bip_data[bip_index + t];
-- 
2.43.0


From 2a6af28313473c47ce20d453c73d5cf4d2f2ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 073/108] fix: index cubes of more than 2 GiB with size_t in
 hyper_mat_get_range

---
 modules/process/src/c_src/imageprocess.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index b799b07..eef0944 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -403,7 +403,7 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	int src_index =0, dst_index =0;
+	size_t src_index =0, dst_index =0;
 	int src_samples = src_mat -> samples;
 	int src_lines = src_mat -> lines;
 	int src_bands = src_mat -> bands;
@@ -416,8 +416,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int j = start_col; j < end_col; j++)
 				{
-					src_index = (i * src_samples * src_bands + k * src_samples + j) * elem_size;
-					dst_index = ((i - start_row) * samples * bands + (k - start_band) * samples + j - start_col) * elem_size;
+					src_index = ((size_t)i * src_samples * src_bands + (size_t)k * src_samples + j) * elem_size;
+					dst_index = ((size_t)(i - start_row) * samples * bands + (size_t)(k - start_band) * samples + j - start_col) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
@@ -433,8 +433,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int k = start_band; k < end_band; k++)
 				{
-					src_index = (i * src_samples * src_bands + j * src_bands + k) * elem_size;
-					dst_index = ((i - start_row) * samples * bands + (j - start_col) * bands + k - start_band) * elem_size;
+					src_index = ((size_t)i * src_samples * src_bands + (size_t)j * src_bands + k) * elem_size;
+					dst_index = ((size_t)(i - start_row) * samples * bands + (size_t)(j - start_col) * bands + k - start_band) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
@@ -450,8 +450,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int j = start_col; j < end_col; j++)
 				{
-					src_index = (k * src_samples * src_lines + i * src_samples + j) * elem_size;
-					dst_index = ((k - start_band) * samples * lines + (i - start_row) * samples + j - start_col) * elem_size;
+					src_index = ((size_t)k * src_samples * src_lines + (size_t)i * src_samples + j) * elem_size;
+					dst_index = ((size_t)(k - start_band) * samples * lines + (size_t)(i - start_row) * samples + j - start_col) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
-- 
2.43.0


From fb44c74d8a5f50090d83d13be51adcc0648d8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 074/108] fix: find the band of a cube of more than 2 GiB in
 hyper_mat_2_simple_mat

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index eef0944..4340454 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -522,9 +522,9 @@ void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 	dst_mat -> data_type = src_mat -> data_type;
 	dst_mat -> elem_size = elemsize;
     
-	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
+	char* data = (char*)src_mat->data+((size_t)samples*lines*(band-1)*elemsize);
 
-	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
+	memcpy((char*)dst_mat->data,(char*)data,(size_t)samples*lines*elemsize);
 }
 
 
-- 
2.43.0


From 6db2e15eb54188f836bc01efee8296e8951f6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 075/108] fix: offset of a part beyond 2 GiB in
 hyper_mat_splicing

---
 modules/process/src/c_src/imageprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 4340454..5a6014d 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -661,7 +661,7 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 
 	int elemsize = get_elemsize(mat->data_type); 
 
-	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
+	unsigned char* mat_data = (unsigned char*)mat->data+(size_t)start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
 
 	size_t part_size = (size_t)part->samples*part->lines*part->bands;
-- 
2.43.0


From 0febfad67c9668f2ae9a9430c61eb464a46c0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 076/108] fix: index cubes of more than 2 GiB with size_t in
 the C++ layout conversions

---
 modules/core/src/cxx_src/hypermat.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index e453f29..901a01e 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -155,8 +155,8 @@ namespace hypercv
 			{
 				for (int j=0; j<samples; j++)
 				{
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
-					bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
+					bilIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
+					bsqIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bsqIndex + t] = matData[bilIndex + t];
@@ -196,8 +196,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
-					bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+					bilIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
+					bipIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bipIndex + t] = matData[bilIndex + t];
@@ -238,8 +238,8 @@ namespace hypercv
 			{
 				for (int j=0;j<samples; j++)
 				{
-					bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
+					bsqIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
+					bilIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bilIndex + t] = matData[bsqIndex + t];
@@ -282,8 +282,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-					bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
-				    bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+					bsqIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
+				    bipIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bipIndex + t] = matData[bsqIndex + t];
@@ -325,8 +325,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-			        bsqIndex = (k*samples*lines + i*samples + j)*elemSize;
-					bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+			        bsqIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
+					bipIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bsqIndex + t] = matData[bipIndex + t];
@@ -368,8 +368,8 @@ namespace hypercv
 			{
 				for (int k=0; k<bands; k++)
 				{
-					bilIndex = (i*samples*bands + k*samples + j)*elemSize;
-				    bipIndex = (i*samples*bands + j*bands + k)*elemSize;
+					bilIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
+				    bipIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
 
 					for (int t=0; t<elemSize; t++)
 						dstData[bilIndex + t] = matData[bipIndex + t];
-- 
2.43.0


From 852f38e883c926ca98a4e3e04a03f1516e1f7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 077/108] fix: index cubes of more than 2 GiB with size_t in
 HyMat::convertTo

---
 modules/core/include/cxx_include/hypermat.hpp | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 1a162c8..c39c433 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -385,33 +385,33 @@ namespace hypercv
 				{
 					if(format == HYPERCV_BIL && _format == HYPERCV_BIP)
 					{
-						srcIndex = (i*samples*bands + k*samples + j)*elemSize;
-					    dstIndex = (i*samples*bands + j*bands + k)*elemSize;
+						srcIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
+					    dstIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
 					}
 					else if(format == HYPERCV_BIL && _format == HYPERCV_BSQ)
 					{
-						srcIndex = (i*samples*bands + k*samples + j)*elemSize;
-						dstIndex = (k*samples*lines + i*samples + j)*elemSize;
+						srcIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
+						dstIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BSQ && _format == HYPERCV_BIL)
 					{
-						dstIndex = (i*samples*bands + k*samples + j)*elemSize;
-						srcIndex = (k*samples*lines + i*samples + j)*elemSize;
+						dstIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
+						srcIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BSQ && _format == HYPERCV_BIP)
 					{
-						dstIndex = (i*samples*bands + j*bands + k)*elemSize;
-						srcIndex = (k*samples*lines + i*samples + j)*elemSize;
+						dstIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
+						srcIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BIP && _format == HYPERCV_BSQ)
 					{
-						srcIndex = (i*samples*bands + j*bands + k)*elemSize;
-						dstIndex = (k*samples*lines + i*samples + j)*elemSize;
+						srcIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
+						dstIndex = ((size_t)k*samples*lines + (size_t)i*samples + j)*elemSize;
 					}
 					else if(format == HYPERCV_BIP && _format == HYPERCV_BIL)
 					{
-						srcIndex = (i*samples*bands + j*bands + k)*elemSize;
-						dstIndex = (i*samples*bands + k*samples + j)*elemSize;
+						srcIndex = ((size_t)i*samples*bands + (size_t)j*bands + k)*elemSize;
+						dstIndex = ((size_t)i*samples*bands + (size_t)k*samples + j)*elemSize;
 					}
 
 					for (int t=0; t<elemSize; t++)
-- 
2.43.0


From 3852688bd6f86d87a3fc5257d452202633785a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 078/108] fix: index cubes of more than 2 GiB with size_t in
 HyMat::range

---
 modules/core/include/cxx_include/hypermat.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index c39c433..331239e 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -495,7 +495,7 @@ namespace hypercv
 		char* srcData = (char*)data;
 		char* dstData = (char*)dst.data;
 
-		int srcIndex =0, dstIndex =0;
+		size_t srcIndex =0, dstIndex =0;
 
 		switch(format)
 		{
@@ -507,8 +507,8 @@ namespace hypercv
 						{
 							for (int j = startCol; j < endCol; j++)
 							{
-								srcIndex = (i * samples * bands + k * samples + j) * elemSize;
-								dstIndex = ((i - startRow) * newSamples * newBands + (k - startBand) * newSamples + j - startCol) * elemSize;
+								srcIndex = ((size_t)i * samples * bands + (size_t)k * samples + j) * elemSize;
+								dstIndex = ((size_t)(i - startRow) * newSamples * newBands + (size_t)(k - startBand) * newSamples + j - startCol) * elemSize;
 
 								for (int t = 0; t < elemSize; t++)
 									dstData[dstIndex + t] = srcData[srcIndex + t];					
@@ -526,8 +526,8 @@ namespace hypercv
 						{
 							for (int k = startBand; k < endBand; k++)
 							{
-								srcIndex = (i * samples * bands + j * bands + k) * elemSize;
-								dstIndex = ((i - startRow) * newSamples * newBands + (j - startCol) * newBands + k - startBand) * elemSize;
+								srcIndex = ((size_t)i * samples * bands + (size_t)j * bands + k) * elemSize;
+								dstIndex = ((size_t)(i - startRow) * newSamples * newBands + (size_t)(j - startCol) * newBands + k - startBand) * elemSize;
 
 								for (int t = 0; t < elemSize; t++)
 									dstData[dstIndex + t] = srcData[srcIndex + t];					
@@ -544,8 +544,8 @@ namespace hypercv
 						{
 							for (int j = startCol; j < endCol; j++)
 							{
-								srcIndex = (k * samples * lines + i * samples + j) * elemSize;
-								dstIndex = ((k - startBand) * newSamples * newLines + (i - startRow) * newSamples + j - startCol) * elemSize;
+								srcIndex = ((size_t)k * samples * lines + (size_t)i * samples + j) * elemSize;
+								dstIndex = ((size_t)(k - startBand) * newSamples * newLines + (size_t)(i - startRow) * newSamples + j - startCol) * elemSize;
 
 								for (int t = 0; t < elemSize; t++)
 									dstData[dstIndex + t] = srcData[srcIndex + t];					
-- 
2.43.0


From 0c68776493703c7c18b82843874adef8941f2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 079/108] fix: reshape cubes of more than 2 GiB

---
 modules/process/src/c_src/imageprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5a6014d..787e345 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -487,14 +487,14 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 	int src_lines = src_mat -> lines;
 	int src_bands = src_mat -> bands;
 
-	int src_size = src_samples * src_lines * src_bands;
-	int dst_size = dst_rows * dst_cols ;
+	size_t src_size = (size_t)src_samples * src_lines * src_bands;
+	size_t dst_size = (size_t)dst_rows * dst_cols ;
 
 	hypercv_assert(src_size == dst_size, "reshape could not change the size");
 
 	simple_mat dst_mat = create_simple_mat(dst_rows, dst_cols, src_mat->data_type,1);
 
-	memcpy(dst_mat->data, src_mat->data, dst_rows * dst_cols * dst_mat->elem_size);
+	memcpy(dst_mat->data, src_mat->data, dst_size * dst_mat->elem_size);
 
 	return dst_mat;
 }
-- 
2.43.0


From 4bd305d59013a873e9c2e75abda222af80d18615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 080/108] fix: transpose images of more than 2 GiB

---
 modules/process/src/c_src/imageprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 787e345..7d814bd 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -573,7 +573,7 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<elemsize;k++)
-				res_data[i*cols*elemsize+j*elemsize+k] = src_data[j*rows*elemsize+i*elemsize+k];
+				res_data[(size_t)i*cols*elemsize+(size_t)j*elemsize+k] = src_data[(size_t)j*rows*elemsize+(size_t)i*elemsize+k];
 
 }
 
-- 
2.43.0


From 14c9e31ed6560a2c5c34e63d5d801271f88d6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 081/108] fix: transpose the bands of cubes of more than 2 GiB

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index ec95579..1b74ce0 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -202,5 +202,5 @@ void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 		for(int i=0;i<d_lines;i++)
 			for(int j=0;j<d_samples;j++)
 				for(int t=0;t<elemsize;t++)
-				dst[k*d_samples*d_lines*elemsize+i*d_samples*elemsize+j*elemsize+t] = src[k*s_samples*s_lines*elemsize+j*s_samples*elemsize+i*elemsize+t];
+				dst[(size_t)k*d_samples*d_lines*elemsize+(size_t)i*d_samples*elemsize+(size_t)j*elemsize+t] = src[(size_t)k*s_samples*s_lines*elemsize+(size_t)j*s_samples*elemsize+(size_t)i*elemsize+t];
 }
-- 
2.43.0


From 7d9c1cd89f3c4e75d6ad65ae7eb2dc74b2b751fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 082/108] fix: edge energy of large images

---
 modules/algorithm/src/EdgeSignalEnergy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index d1d5c83..43522de 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -34,7 +34,7 @@ float cal_edge_signal_energy(simple_mat mat)
 
 	float* res_data = (float*)dst1->data;
 
-	float r = 0.0;
+	double r = 0.0;
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			r+=pow(res_data[i*cols+j],2);
-- 
2.43.0


From 6590ca2f3f2c0ab43527fe8e577cc9917bd6a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 083/108] fix: contrast of large images

---
 modules/core/src/c_src/simplemat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 0679660..066e52a 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -479,7 +479,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 
 	unsigned char* data = (unsigned char*)tmp->data;
 
-	float res =0.0;
+	double res =0.0;
 	for(int i=0; i<rows; i++)
 	{
 		for(int j=0; j<cols; j++)
@@ -498,7 +498,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	if(tmp != mat)
 		delete_simple_mat(tmp);
 
-	int neighbours = 4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4;
+	double neighbours = 4.0*(cols-2)*(rows-2)+3*2*(rows-2.0)+3*2*(cols-2.0)+2*4;
 	if(neighbours == 0)
 		return 0;
 
-- 
2.43.0


From db84d59b8b26d549b80027574445f1f349dce2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 084/108] fix: variance of values that are large against their
 spread

---
 modules/core/src/c_src/simplemat.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 066e52a..a307cbc 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -254,12 +254,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(failed == 0, "can not write bmp image");
 }
 
-/**
- * @brief      function calculate mean value of simple mat.
- * @param[in]  mat         simple mat.
- * @retval     mean value. 
- **/
-float simple_mat_mean(simple_mat mat)
+static double mean_of_mat(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input_mat cannot be NULL");
 	hypercv_assert(mat->channels == 1, "only use in gray image");
@@ -337,6 +332,16 @@ float simple_mat_mean(simple_mat mat)
 	return res/rows/cols;
 }
 
+/**
+ * @brief      function calculate mean value of simple mat.
+ * @param[in]  mat         simple mat.
+ * @retval     mean value. 
+ **/
+float simple_mat_mean(simple_mat mat)
+{
+	return mean_of_mat(mat);
+}
+
 /**
  * @brief      function calculate variance of simple mat.
  * @param[in]  mat         simple mat.
@@ -350,7 +355,7 @@ float simple_mat_variance(simple_mat mat)
 	int rows   = mat->rows;
 	int cols   = mat->cols;
 	double res  = 0.0;
-	float mean = simple_mat_mean(mat);
+	double mean = mean_of_mat(mat);
 	
 	switch (mat -> data_type)
 	{
-- 
2.43.0


From 3fabb4e075bec8e689b40d2f850bcece3e10a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 085/108] fix: k-means of images with large sums of coordinates

---
 modules/algorithm/src/cluster.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 866c06d..495b5cc 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -7,9 +7,9 @@
 
 //----------------------------------private_function--------------------------
 
-static int distance(POINT p, int i,int j)
+static double distance(POINT p, int i,int j)
 {
-	return pow((p.x-j),2) + pow((p.y-i),2);
+	return pow(((double)p.x-j),2) + pow(((double)p.y-i),2);
 }
 
 //-----------------------------------public function---------------------------
@@ -36,7 +36,8 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	int rows = src->rows;
 	int cols = src->cols;
 
-	POINT* v2 = (POINT*)malloc(kind * sizeof(POINT)); 
+	//sums of coordinates do not fit into a point
+	struct {long long x; long long y;} *v2 = malloc(kind * sizeof(*v2));
 
 	int* num = (int*)malloc(kind * sizeof(int));	
 	hypercv_assert(v2 != NULL && num != NULL, "failed to allocate memory");
@@ -67,7 +68,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 				if(data[i*cols+j] != 0)
 				{
 					int min_index = 0;
-					int min_distance = rows*rows+cols*cols;
+					double min_distance = (double)rows*rows+(double)cols*cols;
 					for(int k=0; k<kind; k++)
 					{
 						if(distance(v1[k], i, j) < min_distance)
-- 
2.43.0


From f13bba0fa3cb83b5d7c399a88f1b5def6975b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 086/108] fix: k-means that circles between centers does not
 return

---
 modules/algorithm/src/cluster.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 495b5cc..4d10235 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -57,6 +57,13 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 
 	unsigned char* data = (unsigned char*)mat->data;
 
+	//the truncated centers may come back to earlier ones for ever:
+	//some centers are kept, those of a circle are met again.
+	POINT* kept = (POINT*)malloc(kind * sizeof(POINT));
+	hypercv_assert(kept != NULL, "failed to allocate memory");
+	memcpy(kept, v1, kind * sizeof(POINT));
+	long long step = 0, next = 1;
+
 	while(1)
 	{
 		int flag = 0;
@@ -98,10 +105,16 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			v2[k].y = 0;
 			num[k]  = 0;
 		}
-		if(flag == 0)
+		if(flag == 0 || memcmp(kept, v1, kind * sizeof(POINT)) == 0)
 			break;
+		if(++step == next)
+		{
+			memcpy(kept, v1, kind * sizeof(POINT));
+			next *= 2;
+		}
 	}
 	free(v2);
+	free(kept);
 	free(num);
 
 	if(mat != src)
-- 
2.43.0


From f4b7596f554f35c76799423e996d7ad513bb9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 087/108] fix: spectral angle of spectra of very large or very
 small values

---
 modules/process/src/c_src/spectralprocess.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 1b74ce0..0f91154 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -88,18 +88,19 @@ float spectral_angle_mapper(float * x, float * y, int length)
 {
 	hypercv_assert(x != NULL && y != NULL, "spectral angle mapper input must not be NULL");
 
-	float XY = 0.0, X = 0.0, Y = 0.0;
+	//the squares of float values fit into double
+	double XY = 0.0, X = 0.0, Y = 0.0;
 
-	float res = 0.0;
+	double res = 0.0;
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += fabs(x[i] * y[i]);
-		X += (x[i])*(x[i]);
-		Y += (y[i])*(y[i]);
+		XY += fabs((double)x[i] * y[i]);
+		X += ((double)x[i])*(x[i]);
+		Y += ((double)y[i])*(y[i]);
 	}
 
-	res = XY / sqrt(X*Y);
+	res = XY / (sqrt(X)*sqrt(Y));
 	//rounding may exceed the domain of acos
 	res = acos(res > 1 ? 1 : res);
 
-- 
2.43.0


From a306f0e616767872e01e52db8009b5099a0bf3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 088/108] fix: integral of large bright images overflowed on
 the way to sums that fit

---
 modules/process/src/c_src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 80cfcf2..68fafbc 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -510,7 +510,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 			else if(j==0)
 				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + src_data[i*cols+j];
 			else
-				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
+				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] - dst_data[(i-1)*cols+j-1] + dst_data[i*cols+j-1] + src_data[i*cols+j];	
 		}
 	}
 }
-- 
2.43.0


From 85defece8b6138b369c96b7869e6a07c4cfff12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 089/108] fix: logarithm of a matrix left out the channels
 after the first

---
 modules/process/src/c_src/imageprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 7d814bd..d89e407 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -643,15 +643,16 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
-	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols, "src mat size == dst_mat size");
+	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
+	int channels = src_mat->channels;
 	
 	float* src_data = (float*)src_mat->data;
 	float* dst_data = (float*)dst_mat->data;
 
-	for(int i=0;i<rows*cols;i++)
+	for(int i=0;i<rows*cols*channels;i++)
 		dst_data[i] = log(src_data[i]);
 }
 
-- 
2.43.0


From 38ca839aa223320b84633f286f6e94e775bfd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 090/108] fix: type conversions of images beyond 2^31 elements

---
 modules/process/src/c_src/datatypechange.c | 48 +++++++++++-----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index 90443fe..5db8957 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -34,9 +34,9 @@ hyper_mat hyper_mat_uchar2short(hyper_mat uc_mat)
 	short * data = (short*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 
 	if(uc_mat->wavelength != NULL)
@@ -63,9 +63,9 @@ hyper_mat hyper_mat_uchar2int(hyper_mat uc_mat)
 	int* data = (int*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 	
 	if(uc_mat->wavelength != NULL)
@@ -92,9 +92,9 @@ hyper_mat hyper_mat_uchar2float(hyper_mat uc_mat)
 	float* data = (float*)dst->data;
 	unsigned char* uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i]*1.0;
 	
 	if(uc_mat->wavelength != NULL)
@@ -121,9 +121,9 @@ hyper_mat hyper_mat_uchar2ushort(hyper_mat uc_mat)
 	unsigned short* data = (unsigned short*)dst->data;
 	unsigned char*  uc_data = (unsigned char*)uc_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=uc_data[i];
 	
 	if(uc_mat->wavelength != NULL)
@@ -150,9 +150,9 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int * data = dst->data;
 	float* fdata = f_mat->data;
 
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i]=round_saturate(fdata[i], INT32_MIN, INT32_MAX);
 	
 	if(f_mat->wavelength != NULL)
@@ -177,8 +177,8 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 
 	char* data = dst->data;
 	float* fdata = f_mat->data;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 		data[i] = round_saturate(fdata[i], -128, 127);
 		
 	if(f_mat->wavelength != NULL)
@@ -204,9 +204,9 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	short* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 		data[i] = round_saturate(fdata[i], -32768, 32767);
 		
 	if(f_mat->wavelength != NULL)
@@ -232,8 +232,8 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	unsigned short* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 		data[i] = round_saturate(fdata[i], 0, 65535);
 
 	if(f_mat->wavelength != NULL)
@@ -259,8 +259,8 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	unsigned char* data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 		data[i] = round_saturate(fdata[i], 0, 255);
 
 	if(f_mat->wavelength != NULL)
@@ -286,8 +286,8 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 	unsigned int * data = dst->data;
 	float* fdata = f_mat->data;
 	int tmp = 0;
-	int datasize = samples*lines*bands;
-	for(int i=0;i<datasize;i++)
+	long int datasize = (long int)samples*lines*bands;
+	for(long int i=0;i<datasize;i++)
 	{
 		if(fdata[i]>=4294967296.0f)
 			data[i] =4294967295;
@@ -323,9 +323,9 @@ hyper_mat hyper_mat_ushort2float(hyper_mat us_mat)
 	float* fdata = dst->data;
 
 	int tmp = 0;
-	int datasize = samples*lines*bands;
+	long int datasize = (long int)samples*lines*bands;
 
-	for(int i=0;i<datasize;i++)
+	for(long int i=0;i<datasize;i++)
 	{
 		fdata[i] = usdata[i]*1.0;
 	}
@@ -348,7 +348,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 
 	simple_mat dst = create_simple_mat(src->rows,src->cols,1,src->channels);
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 	int cn = src->channels;
 	float* src_data = (float*)src->data;
 	unsigned char* dst_data = (unsigned char*)dst->data;
@@ -358,7 +358,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   for(int j=0;j<cols;j++)
 	   maxpix = maxpix>src_data[i*cols+j]?maxpix:src_data[i*cols+j];
 	   */
-	for(int i=0;i<rows*cols*cn;i++)
+	for(long int i=0;i<rows*cols*cn;i++)
 	{
 		dst_data[i] = saturate_cast_float2uchar(src_data[i]);
 	}
-- 
2.43.0


From 9ba97376f6cd740c6afce2a567bb9d4dc0ff6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 091/108] fix: flips, pyramids and rotation of images beyond
 2^31 elements

---
 modules/process/src/c_src/GeometricTransformation.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 6694af5..0eeef88 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -11,7 +11,7 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	hypercv_assert(src_mat != NULL && dst_mat != NULL,"input mat cannot be null");
 	
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
 	int pixel = channels * get_elemsize(src_mat->data_type);
@@ -31,7 +31,7 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	hypercv_assert(src_mat != NULL && dst_mat != NULL,"input mat cannot be null");
 	
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
 	int pixel = channels * get_elemsize(src_mat->data_type);
@@ -97,7 +97,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	unsigned char* dst_data = (unsigned char*) dst->data;
 	unsigned char* tmp_data = (unsigned char*) tmp->data;
 
-	for(int i=0;i<dst_rows;i++)
+	for(long int i=0;i<dst_rows;i++)
 		for(int j=0;j<dst_cols;j++)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
@@ -127,7 +127,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	unsigned char* src_data = (unsigned char*) src->data;
 	unsigned char* tmp_data = (unsigned char*) tmp->data;
 
-	for(int i=0;i<dst_rows;i++)
+	for(long int i=0;i<dst_rows;i++)
 	{
 		for(int j=0;j<dst_cols;j++)
 		{
@@ -201,8 +201,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 			int y = floor((j + 0.5 - w) * c - (i + 0.5 - h) * s + width / 2.0);
 			if(x < 0 || x >= height || y < 0 || y >= width)
 				continue;
-			int dstOft = (x * width + y) * mat->bands * elem_size;
-			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
+			size_t dstOft = ((size_t)x * width + y) * mat->bands * elem_size;
+			size_t srcOft = ((size_t)i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
 			unsigned char* dst = dst_data + dstOft;
 			memcpy(dst,src,mat->bands*elem_size);
-- 
2.43.0


From a571a3a23e4d84f9ccf500d987991eb235d2d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 092/108] fix: colour conversions of images beyond 2^31
 elements

---
 modules/process/src/c_src/colortransform.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 5b5b139..3a703a0 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -48,7 +48,7 @@ simple_mat sm_binary2rgb(simple_mat binary_image)
 	hypercv_assert(binary_image->channels == 1,"input binary_image channels == 1");
 
 	int rows = binary_image -> rows;
-	int cols = binary_image -> cols;
+	long int cols = binary_image -> cols;
 	int channels = 3;
 
 	simple_mat rgb_image = create_simple_mat(rows,cols,1,channels);
@@ -74,7 +74,7 @@ simple_mat sm_gray2rgb(simple_mat gray_image)
 	hypercv_assert(gray_image->channels == 1,"input gray image channels == 1");
 
 	int rows = gray_image -> rows;
-	int cols = gray_image -> cols;
+	long int cols = gray_image -> cols;
 	int channels = 3;
 
 	simple_mat rgb_image = create_simple_mat(rows,cols,1,channels);
@@ -100,7 +100,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 	hypercv_assert(rgb_image->channels == 3,"input rgb_image channels == 3");
 
 	int rows = rgb_image -> rows;
-	int cols = rgb_image -> cols;
+	long int cols = rgb_image -> cols;
     
 	simple_mat gray_image = create_simple_mat(rows,cols,1,1);
 
@@ -154,7 +154,7 @@ void sm_bgr2rgb(simple_mat src_mat, simple_mat dst_mat)
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 	hypercv_assert(src_mat->channels == 3,"input mat channels == 3");
 
-	int rows,cols;
+	long int rows,cols;
 	rows = src_mat->rows;
 	cols = src_mat->cols;
 	int channels = src_mat->channels;
-- 
2.43.0


From 034545215e25dca191ce2d506e66f872d06fb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 093/108] fix: gradients of images beyond 2^31 elements

---
 modules/process/src/c_src/gradient.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/gradient.c b/modules/process/src/c_src/gradient.c
index dc8b988..3e5ca18 100644
--- a/modules/process/src/c_src/gradient.c
+++ b/modules/process/src/c_src/gradient.c
@@ -17,7 +17,7 @@ void hypercv_laplacian(simple_mat src, simple_mat dst, int k_size, int border_ty
 {
 	hypercv_assert(src!=NULL&&dst!=NULL, "input mat can not be NULL");
 	hypercv_assert(k_size>0,"kernel size > 0");
-	int cols = src->cols;
+	long int cols = src->cols;
 	int rows = src->rows;
 	int channels = src->channels;
 	int data_type = src->data_type;
@@ -87,7 +87,7 @@ void hypercv_sobel(simple_mat src, simple_mat dst, int threshold, int border_typ
 	hypercv_assert(src->channels == 1,"sobel image channels == 1")
 
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 
 	int gradx = 0;
 	int grady = 0;
-- 
2.43.0


From d0ab1ea6515c255af5b563fb3c172ae724dec8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 094/108] fix: filters and borders of images beyond 2^31
 elements

---
 modules/process/src/c_src/filter.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 68fafbc..e84f515 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -41,9 +41,9 @@ static void hypercv_make_const_border(simple_mat src, simple_mat dst, int top, i
 {
 	hypercv_assert(src !=NULL,"INPUT MAT CANNOT BE NULL");
 	int src_rows = src->rows;
-	int src_cols = src->cols;
+	long int src_cols = src->cols;
 	int dst_rows = dst->rows;
-	int dst_cols = dst->cols;
+	long int dst_cols = dst->cols;
 	int channels = src->channels;
 
 	unsigned char* src_data = (unsigned char*)src->data;
@@ -91,7 +91,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	hypercv_assert(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels,"src size == dst size");
 
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 	int cn = src->channels;
 	int data_type = src->data_type;
 	
@@ -148,7 +148,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
 	int channels = src_mat->channels;
 
@@ -186,7 +186,7 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat can not be NULL");
 	hypercv_assert(size>0,"size should be greater than zero");
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
 	int channels = src_mat->channels;
 
@@ -355,9 +355,9 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 	unsigned char* dst_data =(unsigned char*) dst_mat -> data;
 
 	int src_rows = src_mat->rows;
-	int src_cols = src_mat->cols;
+	long int src_cols = src_mat->cols;
 
-	int i,j,k,index;
+	long int i,j,k,index;
 
 	simple_mat temp_mat = create_simple_mat(src_rows,src_cols,4,cn);
 
@@ -484,7 +484,7 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	hypercv_assert(src != NULL,"input mat cannot be null");
 
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 	int data_type = src-> data_type;
 	int channels = src->channels;
 
@@ -552,11 +552,11 @@ simple_mat hypercv_copy_make_border(simple_mat src, int top, int bottom, int lef
 	}
 
 	int dst_rows = dst->rows;
-	int dst_cols = dst->cols;
+	long int dst_cols = dst->cols;
 	int channels = dst->channels;
 	int elemsize = get_elemsize(dst->data_type);
 	int src_rows = src->rows;
-	int src_cols = src->cols;
+	long int src_cols = src->cols;
 
 	unsigned char* dst_data = (unsigned char*)dst->data;
 	unsigned char* src_data = (unsigned char*)src->data;
-- 
2.43.0


From 5a4c395e11ebd167a307b043506cda0ffa199502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 095/108] fix: erosion and dilation of images beyond 2^31
 elements

---
 modules/process/src/c_src/morphology.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 20e7ed4..2fe5d8d 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -20,7 +20,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 	hypercv_assert(s!= NULL, "corrosion kernel cannot be NULL");
 
 	int rows = mat->rows;
-	int cols = mat->cols;
+	long int cols = mat->cols;
 	int channels = mat->channels;
 	int data_type = mat->data_type;
 	int elemsize = get_elemsize(mat->data_type);
@@ -84,7 +84,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 	hypercv_assert(s!= NULL, "expend kernel cannot be NULL");
 
 	int rows = mat->rows;
-	int cols = mat->cols;
+	long int cols = mat->cols;
 	int channels = mat->channels;
 	int data_type = mat->data_type;
 	int elemsize = get_elemsize(mat->data_type);
-- 
2.43.0


From 202d62039799addffed78d0012e119612ed16e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 096/108] fix: thresholds of images beyond 2^31 elements

---
 modules/process/src/c_src/threshold.c | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 3e1393c..dcc6e31 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -13,7 +13,7 @@ int otsuThreshold(simple_mat img)
 	int height = img->rows;
 	int width  = img->cols;
 	int channels  = img->channels;
-	int step      = width*channels;
+	long int step = width*channels;
 	unsigned char* data  = (unsigned char*)img->data;
 	double gSum0;//第一类灰度总值
 	double gSum1;//第二类灰度总值
@@ -27,7 +27,7 @@ int otsuThreshold(simple_mat img)
 	double tempg = -1;//临时类间方差
 	double g = -1;//类间方差
 	double Histogram[256]={0};// = new double[256];//灰度直方图
-	double N = width*height;//总像素数
+	double N = (double)width*height;//总像素数
 	for(int i=0;i<height;i++)
 	{//计算直方图
 		for(int j=0;j<width;j++)
@@ -79,13 +79,13 @@ void hypercv_threshold_binary(simple_mat src_mat, simple_mat dst_mat, int thresh
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*)src_mat ->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat ->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 	{
 		if(src_data[i]>thresh)
 			dst_data[i] = max_value;
@@ -102,13 +102,13 @@ void hypercv_threshold_binary_inv(simple_mat src_mat, simple_mat dst_mat, int th
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*)src_mat ->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat ->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 	{
 		if(src_data[i]<=thresh)
 			dst_data[i] = max_value;
@@ -125,13 +125,13 @@ void hypercv_threshold_trunc(simple_mat src_mat, simple_mat dst_mat, int thresh,
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*)src_mat ->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat ->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 	{
 		if(src_data[i]>thresh)
 			dst_data[i] = thresh;
@@ -148,13 +148,13 @@ void hypercv_threshold_tozero(simple_mat src_mat, simple_mat dst_mat, int thresh
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*)src_mat ->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat ->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 	{
 		if(src_data[i]>thresh)
 			dst_data[i] = src_data[i];
@@ -171,13 +171,13 @@ void hypercv_threshold_tozero_inv(simple_mat src_mat, simple_mat dst_mat, int th
 	hypercv_assert(src_mat->channels == 1, "threshold only use in gray image");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 
 	unsigned char* src_data = (unsigned char*)src_mat ->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat ->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 	{
 		if(src_data[i]<=thresh)
 			dst_data[i] = src_data[i];
@@ -197,14 +197,14 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	int thresh = otsuThreshold(src_mat);
 		
 	unsigned char* src_data = (unsigned char*)src_mat ->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat ->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 	{
 		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
-- 
2.43.0


From 9e809369d4966cf2e39ccdab20123d125fcdbf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 097/108] fix: equalization and stretch of images beyond 2^31
 elements

---
 modules/algorithm/src/HisEqualization.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index d380b0d..e8eb5c1 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -16,7 +16,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	hypercv_assert(src_mat!=NULL&&dst_mat!=NULL,"input mat could not be NULL");
 	
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	hypercv_assert(rows==dst_mat->rows&&dst_mat->cols==cols,"input mat size equal");
 
 	unsigned char* data = (unsigned char*) src_mat ->data;
@@ -24,7 +24,7 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 
 	long hist[256] = {0};
 	
-	for(int i=0; i<rows*cols; i++)
+	for(long int i=0; i<rows*cols; i++)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
@@ -33,14 +33,14 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	for(int i=0; i<256; i++)
 		hist[i] = hist[i]*255/(rows*cols);
 	
-	for(int i=0; i<rows*cols; i++)
+	for(long int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
 }
 
 void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 {
 	hypercv_assert(cmpstr(bsq_mat->interleave,"bsq")==1,"input src mat must be bsq");
-	int samples = bsq_mat -> samples;
+	long int samples = bsq_mat -> samples;
 	int lines = bsq_mat -> lines;
 	int bands = bsq_mat -> bands;
 	hypercv_assert(dst_mat->samples == samples&& dst_mat->lines == lines&&dst_mat->bands == bands,"src mat size == dst mat size");
-- 
2.43.0


From 9e9241022ddebf939dd95bd50f6adac9dd2ea19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 098/108] fix: normalization of images beyond 2^31 elements

---
 modules/algorithm/src/normalize.c | 36 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 88a492d..18842ef 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -31,7 +31,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 	int data_type = src->data_type;
 	int channels = src->channels;
 
@@ -42,33 +42,33 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		double L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (long int i=0;i<rows*cols;i++)
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] =saturate_cast_float2uchar(L1_norm>0?src_data[i]*alpha/L1_norm:0);
 	}
 	if(norm_type == NORM_L2)
 	{
 		double L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (long int i=0;i<rows*cols;i++)
 			L2_norm += (double)src_data[i]*src_data[i];
 		L2_norm = sqrt(L2_norm);
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] = saturate_cast_float2uchar(L2_norm>0?src_data[i]*alpha/L2_norm:0);
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (long int i=0;i<rows*cols;i++)
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] = saturate_cast_float2uchar(INF_norm>0?src_data[i]*alpha/INF_norm:0);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=src_data[0],minsrc=src_data[0];
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -76,7 +76,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] = saturate_cast_float2uchar(maxsrc>minsrc?(src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a:a);
 	}
 }
@@ -87,7 +87,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
 	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 	int data_type = src->data_type;
 	int channels = src->channels;
 
@@ -98,33 +98,33 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		double L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (long int i=0;i<rows*cols;i++)
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] =L1_norm>0?src_data[i]*alpha/L1_norm:0;
 	}
 	if(norm_type == NORM_L2)
 	{
 		double L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (long int i=0;i<rows*cols;i++)
 			L2_norm += (double)src_data[i]*src_data[i];
 		L2_norm = sqrt(L2_norm);
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] = L2_norm>0?src_data[i]*alpha/L2_norm:0;
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (long int i=0;i<rows*cols;i++)
 			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] = INF_norm>0?src_data[i]*alpha/INF_norm:0;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=src_data[0],minsrc=src_data[0];
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -132,7 +132,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(long int i=0;i<rows*cols;i++)
 			dst_data[i] = maxsrc>minsrc?(src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a:a;
 	}
 }
-- 
2.43.0


From 41ba47faa9770955ccf7731bb20bc5e95586a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 099/108] fix: edge energy of images beyond 2^31 elements

---
 modules/algorithm/src/EdgeSignalEnergy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 43522de..9512030 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -22,7 +22,7 @@ float cal_edge_signal_energy(simple_mat mat)
 	}
 
 	int rows = mat->rows;
-	int cols = mat->cols;
+	long int cols = mat->cols;
 
 	simple_mat dst1 = create_simple_mat(rows,cols,4,1);
 	simple_mat dst2 = create_simple_mat(rows,cols,4,1);
-- 
2.43.0


From 0a6b551d267558645e1432c2add37b39d1809f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 100/108] fix: radiometric correction of images beyond 2^31
 elements

---
 modules/process/src/c_src/RadiometricCalibration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 7cfda62..f8b404e 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -8,7 +8,7 @@
 **/
 hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 {
-	int samples = bip_mat->samples;
+	long int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
 
@@ -39,7 +39,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 **/
 hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 {
-	int samples = bip_mat->samples;
+	long int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
 
-- 
2.43.0


From 98cefeef1057e143e75704a4682521b5eecc736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 101/108] fix: spectral match and mean of images beyond 2^31
 elements

---
 modules/process/src/c_src/spectralprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 0f91154..bf966b1 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -42,7 +42,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
 	hypercv_assert(spectrum != NULL,                      "spectrum must not be NULL");
 
-	int samples = bip_mat -> samples;
+	long int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
 	int elem_size = get_elemsize(bip_mat->data_type);
@@ -162,7 +162,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 {
 	hypercv_assert(bip_mat != NULL, "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
-	int samples = bip_mat -> samples;
+	long int samples = bip_mat -> samples;
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
@@ -171,7 +171,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 	float* src_data = (float*)bip_mat->data;
 	float* dst_data = (float*)dst_mat->data;
 
-	for(int i=0;i<lines;i++)
+	for(long int i=0;i<lines;i++)
 	{
 		for(int j=0;j<samples;j++)
 		{
-- 
2.43.0


From b30bf9eb4d09cf29d00471867862472ccb043586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 102/108] fix: clusters of images beyond 2^31 elements

---
 modules/algorithm/src/cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 4d10235..e99aa57 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -34,7 +34,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 		mat = src;
 
 	int rows = src->rows;
-	int cols = src->cols;
+	long int cols = src->cols;
 
 	//sums of coordinates do not fit into a point
 	struct {long long x; long long y;} *v2 = malloc(kind * sizeof(*v2));
-- 
2.43.0


From d0d626ddec021bf9b6fc7d764560775486bf57d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 103/108] fix: moments of images beyond 2^31 elements

---
 modules/algorithm/src/shapematch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 48be00e..fc7863e 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -33,7 +33,7 @@ void calc_hu_moment(double* hu,simple_mat mat)
 	int rows = mat->rows;
 	int data_type = mat->data_type;
 	int elem_size = get_elemsize(data_type);
-	int step = mat->cols*elem_size; 
+	long int step = (long int)mat->cols*elem_size; 
 	unsigned char *data = (unsigned char*)mat->data;
 
 	double m00=0,m11=0,m20=0,m02=0,m30=0,m03=0,m12=0,m21=0;  //中心矩 
-- 
2.43.0


From 1409a11461043d8e6e2decc9d125cd287794131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 104/108] fix: drawing on images beyond 2^31 elements

---
 modules/highgui/src/draw.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index 6ebbc45..3329a1d 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -12,7 +12,7 @@ void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT* v, int point_num,
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -50,7 +50,7 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 	hypercv_assert(src_mat->data_type == 1, "input mat data type == 1");
 	hypercv_assert(src_mat->rows == dst_mat->rows&&src_mat->cols == dst_mat->cols&&src_mat->channels==dst_mat->channels,"src,dst size should be equal");
 
-	int rows,cols;
+	long int rows,cols;
 	rows = src_mat->rows;
 	cols = src_mat->cols;
 	int channels = src_mat->channels;
-- 
2.43.0


From cf44ada2829d659737cb80158f066703c0e82994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 105/108] fix: additions and logarithm of images beyond 2^31
 elements

---
 modules/process/src/c_src/imageprocess.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index d89e407..e64d833 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -602,7 +602,7 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
 
-	for(int i=0;i<rows;i++)
+	for(long int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
 				dst_data[(i*dst_mat->cols+j)*channels+k] = data1[(i*mat1->cols+j)*channels+k]+data2[(i*mat2->cols+j)*channels+k];
@@ -633,7 +633,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	float* data2 = (float*)mat2->data;
 	float* dst_data = (float*)dst_mat->data;
 
-	for(int i=0;i<rows;i++)
+	for(long int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
 				dst_data[(i*dst_mat->cols+j)*channels+k] = data1[(i*mat1->cols+j)*channels+k]+data2[(i*mat2->cols+j)*channels+k];
@@ -646,13 +646,13 @@ void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
 	int rows = src_mat->rows;
-	int cols = src_mat->cols;
+	long int cols = src_mat->cols;
 	int channels = src_mat->channels;
 	
 	float* src_data = (float*)src_mat->data;
 	float* dst_data = (float*)dst_mat->data;
 
-	for(int i=0;i<rows*cols*channels;i++)
+	for(long int i=0;i<rows*cols*channels;i++)
 		dst_data[i] = log(src_data[i]);
 }
 
-- 
2.43.0


From 3c8ae0747ad15ab0a8076bacd19f8c6d064921d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 106/108] fix: statistics of images beyond 2^31 elements

---
 modules/core/src/c_src/simplemat.c | 46 +++++++++++++++---------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a307cbc..c3c73d4 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -259,7 +259,7 @@ static double mean_of_mat(simple_mat mat)
 	hypercv_assert(mat!=NULL, "input_mat cannot be NULL");
 	hypercv_assert(mat->channels == 1, "only use in gray image");
 	int rows = mat -> rows;
-	int cols = mat -> cols;
+	long int cols = mat -> cols;
 
 	double res = 0.0;
 
@@ -268,63 +268,63 @@ static double mean_of_mat(simple_mat mat)
 		case 1:
 			{
 				unsigned char* data = (unsigned char*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 2:
 			{
 				short* data = (short*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 3:
 			{
 				int* data = (int*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 4:
 			{
 				float* data = (float*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 5:
 			{
 				double* data = (double*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 13:
 			{
 				unsigned int* data = (unsigned int*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 14:
 			{
 				long int* data = (long int*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
 		case 15:
 			{
 				unsigned long int* data = (unsigned long int*) mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
 			}
@@ -353,7 +353,7 @@ float simple_mat_variance(simple_mat mat)
 	hypercv_assert(mat->channels == 1, "only use in gray image");
 
 	int rows   = mat->rows;
-	int cols   = mat->cols;
+	long int cols   = mat->cols;
 	double res  = 0.0;
 	double mean = mean_of_mat(mat);
 	
@@ -362,63 +362,63 @@ float simple_mat_variance(simple_mat mat)
 		case 1:
 			{
 				unsigned char* data = (unsigned char*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 2:
 			{
 				short* data = (short*)mat->data;
-				for(int i=0;i<rows*cols;i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i],2);
 				break;
 			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
-				for(int i=0;i<rows*cols;i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i],2);
 				break;
 			}
 		case 3:
 			{
 				int* data = (int*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 4:
 			{
 				float* data = (float*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 5:
 			{
 				double* data = (double*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 13:
 			{
 				unsigned int* data = (unsigned int*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 14:
 			{
 				long int* data = (long int*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
 		case 15:
 			{
 				unsigned long int* data = (unsigned long int*)mat->data;
-				for(int i=0; i<rows*cols; i++)
+				for(long int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
 			}
@@ -438,7 +438,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
-	int cols     = mat->cols;
+	long int cols     = mat->cols;
 	int channels = mat->channels;
 
 	simple_mat tmp;
@@ -453,7 +453,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 	for(int i=0; i<256; i++)
 		gray_statist[i] = 0;
 
-	for(int i=0; i<rows*cols; i++)
+	for(long int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
 
 	if(tmp != mat)
@@ -472,7 +472,7 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	hypercv_assert(mat-> data_type == 1,    "only use in unsigned char image");
 
 	int rows     = mat->rows;
-	int cols     = mat->cols;
+	long int cols     = mat->cols;
 	int channels = mat->channels;
 
 	simple_mat tmp;
-- 
2.43.0


From ccb4adbe39024a3d89c1b96b7ebb2036e158f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 107/108] fix: clusters of more than 2^31 pixels

---
 modules/algorithm/src/cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index e99aa57..57bccd6 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -39,7 +39,7 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	//sums of coordinates do not fit into a point
 	struct {long long x; long long y;} *v2 = malloc(kind * sizeof(*v2));
 
-	int* num = (int*)malloc(kind * sizeof(int));	
+	long int* num = (long int*)malloc(kind * sizeof(*num));	
 	hypercv_assert(v2 != NULL && num != NULL, "failed to allocate memory");
  
 	srand((unsigned)time(NULL));
-- 
2.43.0


From 71175730ee4e781a203057d57e5be6c53467cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 108/108] fix: moments of images with an axis of millions of
 pixels

---
 modules/algorithm/src/shapematch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index fc7863e..908878f 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -50,8 +50,8 @@ void calc_hu_moment(double* hu,simple_mat mat)
 	{
 		for(i=0;i<cols;i++)//x
 		{
-			s10+=i*data[j*step+i];
-			s01+=j*data[j*step+i];
+			s10+=(double)i*data[j*step+i];
+			s01+=(double)j*data[j*step+i];
 			s00+=data[j*step+i];
 		}
 	}
-- 
2.43.0

