From ca21bd6efb0cdf9d0b40c8a9762901a24aa56453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 01/51] fix: report failed configuration saves and never
 overwrite a file that cannot be read

A save that failed (open, write, close or allocation) was announced as written;
the existence test by opening for reading overwrote files it could not read.
---
 src/Headers/CERN.h         |  4 +--
 src/Headers/HIREP.h        |  4 +--
 src/Headers/Scidac.h       | 12 ++++----
 src/IO/CERN.c              |  9 +++---
 src/IO/HIREP.c             |  8 +++--
 src/IO/Scidac.c            | 62 +++++++++++++++++++++++---------------
 src/IO/writers.c           | 43 ++++++++++++++++++--------
 src/Utils/str_stuff.c      | 11 +++++--
 src/Wrappers/GLUlib_wrap.c | 41 ++++++++++++-------------
 9 files changed, 117 insertions(+), 77 deletions(-)

diff --git a/src/Headers/CERN.h b/src/Headers/CERN.h
index 8454322..4e0ea85 100644
--- a/src/Headers/CERN.h
+++ b/src/Headers/CERN.h
@@ -37,12 +37,12 @@ read_CLS_field( struct site *lat ,
 		uint32_t *chksum ) ;
 
 /**
-   @fn void write_CLS_field( const struct site *lat ,  FILE *outfile )
+   @fn int write_CLS_field( const struct site *lat ,  FILE *outfile )
    @param lat :: lattice gauge field
    @param outfile :: string we are writing out to
    @brief write a CERN gauge field
  */
-void
+int
 write_CLS_field( const struct site *lat ,
 		 FILE *outfile ) ;
 
diff --git a/src/Headers/HIREP.h b/src/Headers/HIREP.h
index d4f22f7..5af6990 100755
--- a/src/Headers/HIREP.h
+++ b/src/Headers/HIREP.h
@@ -37,12 +37,12 @@ read_gauge_field( struct site *__restrict lat ,
 		  uint32_t *chksum ) ;
 
 /**
-   @fn void write_gauge_field( const struct site *__restrict lat , FILE *__restrict outfile )
+   @fn int write_gauge_field( const struct site *__restrict lat , FILE *__restrict outfile )
    @brief writes out a configuration file in the HiRep order
    @param lat :: lattice gauge field
    @param outfile :: file we are outputting to
  **/
-void
+int
 write_gauge_field( const struct site *__restrict lat ,
 		   FILE *__restrict outfile ) ;
 
diff --git a/src/Headers/Scidac.h b/src/Headers/Scidac.h
index 4ee52a3..22a7dc1 100755
--- a/src/Headers/Scidac.h
+++ b/src/Headers/Scidac.h
@@ -36,28 +36,28 @@ get_header_data_SCIDAC( FILE *infile ,
 			struct head_data *HEAD_DATA ) ;
 
 /**
-   @fn void write_header_ILDG( FILE *__restrict out )
+   @fn int write_header_ILDG( FILE *__restrict out )
    @brief function for writing out an ILDG header
    @param out :: output file
  */
-void
+int
 write_header_ILDG( FILE *__restrict out ) ;
 
 /**
-   @fn void write_header_SCIDAC( FILE *__restrict out ) ;
+   @fn int write_header_SCIDAC( FILE *__restrict out ) ;
    @brief function for writing out a SCIDAC configuration
    @param out :: the output file
  */
-void
+int
 write_header_SCIDAC( FILE *__restrict out ) ;
 
 /**
-   @fn void write_trailing_header_SCIDAC( FILE *__restrict out , const uint32_t cksuma , const uint32_t cksumb ) 
+   @fn int write_trailing_header_SCIDAC( FILE *__restrict out , const uint32_t cksuma , const uint32_t cksumb ) 
    @brief writes the checksums for the configuration file
    @param cksuma :: the computed CRC checksum (rank29)
    @param cksumb :: the CRC checksum (rank31)
  */
-void
+int
 write_trailing_header_SCIDAC( FILE *__restrict out ,
 			      const uint32_t cksuma ,
 			      const uint32_t cksumb ) ;
diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 79a46bf..9e53ac6 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -127,13 +127,13 @@ read_CLS_field( struct site *__restrict lat ,
 }
 
 // writes my gauge field out in the CERN format 
-void
+int
 write_CLS_field( const struct site *__restrict lat ,
 		 FILE *__restrict outfile )
 {
   if( ND != 4 ) {
     fprintf( stderr , "No known CERN format for Nd != 4\n" ) ;
-    return ;
+    return GLU_FAILURE ;
   }
   
   const size_t stride = 16*NCNC ; 
@@ -158,7 +158,8 @@ write_CLS_field( const struct site *__restrict lat ,
   // create a copy
   double *uout = NULL ;
   if( GLU_malloc( (void**)&uout , ALIGNMENT, LVOLUME*ND*NCNC*2*sizeof(double) ) != 0 ) {
-    return ;
+    fprintf( stderr , "[IO] CERN output allocation failure\n" ) ;
+    return GLU_FAILURE ;
   }
 
   // the idea is to do all of the translation stuff in parallel and then dump it to a file
@@ -238,5 +239,5 @@ write_CLS_field( const struct site *__restrict lat ,
   
   free( uout ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..d17f0ed 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -112,7 +112,7 @@ read_gauge_field( struct site *__restrict lat ,
 }
 
 // writes my gauge field out in the HiRep format 
-void
+int
 write_gauge_field( const struct site *__restrict lat ,
 		   FILE *__restrict outfile )
 {
@@ -157,6 +157,10 @@ write_gauge_field( const struct site *__restrict lat ,
   // now to put the gauge field in, in HiRep's weird order!
 
   double *uoutd = ( double* )malloc( stride *sizeof( double ) ) ; 
+  if( uoutd == NULL ) {
+    fprintf( stderr , "[IO] HIREP output allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -191,5 +195,5 @@ write_gauge_field( const struct site *__restrict lat ,
 
   free( uoutd ) ;
 
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 1f7852e..978637b 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -147,6 +147,10 @@ parse_SCIDAC_hdr( FILE *infile ,
   return GLU_SUCCESS ;
 }
 
+// length of a record that may have failed to allocate
+static size_t
+record_len( const char *record ) { return record == NULL ? 0 : strlen( record ) ; }
+
 // for writing the header record
 static int
 write_SCIDAC_binary( FILE *__restrict out ,
@@ -154,6 +158,11 @@ write_SCIDAC_binary( FILE *__restrict out ,
 		     const size_t record_length ,
 		     const char *banf )
 {
+  // the record could not be built
+  if( record == NULL ) {
+    fprintf( stderr , "[IO] SCIDAC record allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
   // padding ...
   const unsigned char padbuf[7] = {0x00,0x00,0x00,0x00,0x00,0x00,0x00};
   // we zero the header
@@ -211,13 +220,14 @@ get_header_data_SCIDAC( FILE *infile ,
 }
 
 // for writing out SCIDAC configurations ...
-void
+int
 write_header_SCIDAC( FILE *__restrict out )
 {
+  int FLAG = GLU_SUCCESS ;
   // initialisation 
   const char *start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" ;
   char *str = malloc( (1+strlen(start))*sizeof(char) ) ;
-  sprintf( str , "%s" , start ) ;
+  if( str != NULL ) { sprintf( str , "%s" , start ) ; }
   
   // sprintf in some xml stuff
   char tmp[128] ;
@@ -235,15 +245,15 @@ write_header_SCIDAC( FILE *__restrict out )
   append_char( &str , "</dims><volfmt>0</volfmt></scidacFile>" ) ;
 
   // some dummy file
-  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
+  FLAG |= write_SCIDAC_binary( out , str , record_len( str ) , "scidac-private-file-xml" ) ;
   free( str ) ;
-  write_SCIDAC_binary( out , "<title>GLU SCIDAC archival gauge configuration</title>" ,
+  FLAG |= write_SCIDAC_binary( out , "<title>GLU SCIDAC archival gauge configuration</title>" ,
 		       strlen( "<title>GLU SCIDAC archival gauge configuration</title>" ) ,
 		       "scidac-file-xml" ) ;
   
   // gauge file informations
   char *gstr = malloc( (1+strlen(start))*sizeof(char) ) ;
-  sprintf( gstr , "%s" , start ) ;
+  if( gstr != NULL ) { sprintf( gstr , "%s" , start ) ; }
   sprintf( tmp , "<scidacRecord><version>1.0</version><date>%s GMT</date>"
 	   "<globaldata>0</globaldata>" , get_date( ) ) ;
   append_char( &gstr , tmp ) ;
@@ -261,50 +271,52 @@ write_header_SCIDAC( FILE *__restrict out )
 	   NC ,  ND * NCNC * 2 * (int)( sizeof( GLU_real )
 					/ sizeof( float ) ) , ND ) ;
   append_char( &gstr , tmp ) ;
-  write_SCIDAC_binary( out , gstr , strlen( gstr ) , 
+  FLAG |= write_SCIDAC_binary( out , gstr , record_len( gstr ) , 
 		       "scidac-private-record-xml" ) ;
   free( gstr ) ;
 
   // dummy again
-  write_SCIDAC_binary( out , "<info>GLU library configuration file</info>" ,
+  FLAG |= write_SCIDAC_binary( out , "<info>GLU library configuration file</info>" ,
 		       strlen( "<info>GLU library configuration file</info>" ) ,
 		       "scidac-record-xml" ) ;
   
   // and then leave space for the gauge field
   char *nada = "" ; 
-  write_SCIDAC_binary( out , nada , sizeof( GLU_real ) * \
+  FLAG |= write_SCIDAC_binary( out , nada , sizeof( GLU_real ) * \
 		       LVOLUME * ND * NCNC * 2 ,// the 2 is for complex
 		       "scidac-binary-data" ) ; 
-  return ;
+  return FLAG == GLU_SUCCESS ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // writes the final header for the scidac record
-void
+int
 write_trailing_header_SCIDAC( FILE *__restrict out ,
 			      const uint32_t cksuma ,
 			      const uint32_t cksumb )
 {
+  int FLAG = GLU_SUCCESS ;
   const char *start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><scidacChecksum>" ;
   char *str = malloc( (1+strlen(start))*sizeof(char) ) , tmp[128] ;
-  sprintf( str , "%s" , start ) ; 
+  if( str != NULL ) { sprintf( str , "%s" , start ) ; } 
   sprintf( tmp , "<version>1.0</version><suma>%x</suma><sumb>%x</sumb>" ,
 	   cksuma , cksumb ) ;
   append_char( &str , tmp ) ;
   append_char( &str , "</scidacChecksum>" ) ;
-  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-checksum" ) ;
+  FLAG |= write_SCIDAC_binary( out , str , record_len( str ) , "scidac-checksum" ) ;
   free( str ) ;
-  return ;
+  return FLAG == GLU_SUCCESS ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // and a header writer for the ILDG configuration
 // for writing out SCIDAC configurations ...
-void
+int
 write_header_ILDG( FILE *__restrict out )
 {
+  int FLAG = GLU_SUCCESS ;
   // initialisation 
   const char *start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" ;
   char *str = malloc( (1+strlen(start))*sizeof( char ) ) , tmp[ 128 ] ;
-  sprintf( str , "%s" , start ) ;
+  if( str != NULL ) { sprintf( str , "%s" , start ) ; }
   // sprintf in some xml stuff
   sprintf( tmp , "<scidacFile><version>1.1</version>"
 	   "<spacetime>%d</spacetime><dims>" , ND ) ;
@@ -319,15 +331,15 @@ write_header_ILDG( FILE *__restrict out )
 
   append_char( &str , "</dims><volfmt>0</volfmt></ScidacFile>" ) ;
   // some dummy file
-  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
+  FLAG |= write_SCIDAC_binary( out , str , record_len( str ) , "scidac-private-file-xml" ) ;
   free( str ) ;
-  write_SCIDAC_binary( out , "<title>GLU ILDG archival gauge configuration</title>" ,
+  FLAG |= write_SCIDAC_binary( out , "<title>GLU ILDG archival gauge configuration</title>" ,
 		       strlen( "<title>GLU ILDG archival gauge configuration</title>" ) ,
 		       "scidac-file-xml" ) ;
 
   // SCIDAC gauge file informations
   char *gstr = malloc( (1+strlen(start))*sizeof( char ) ) ;
-  sprintf( gstr , "%s" , start ) ;
+  if( gstr != NULL ) { sprintf( gstr , "%s" , start ) ; }
   sprintf( tmp , "<scidacRecord><version>1.0</version><date>%s GMT</date>"
 	   "<globaldata>0</globaldata>" , get_date( ) ) ;
   append_char( &gstr , tmp ) ;
@@ -345,11 +357,11 @@ write_header_ILDG( FILE *__restrict out )
 	   NC , ND * NCNC * 2 * (int)( sizeof( GLU_real )
 				       / sizeof( float ) ) , ND ) ;
   append_char( &gstr , tmp ) ;
-  write_SCIDAC_binary( out , gstr , strlen( gstr ) ,
+  FLAG |= write_SCIDAC_binary( out , gstr , record_len( gstr ) ,
 		       "scidac-private-record-xml" ) ;
   free( gstr ) ;
   // and finally an xml
-  write_SCIDAC_binary( out , "<info>GLU library configuration file</info>" ,
+  FLAG |= write_SCIDAC_binary( out , "<info>GLU library configuration file</info>" ,
 		       strlen( "<info>GLU library configuration file</info>" ) ,
 		       "scidac-record-xml" ) ;
 
@@ -362,7 +374,7 @@ write_header_ILDG( FILE *__restrict out )
   const char *ILDG_end = "</ildgFormat>" ;
   char *ILDG_str = malloc( (1+strlen(ILDG_start))*sizeof(char) ) ;
   // begin with the usual spiel and the versioning ...
-  sprintf( ILDG_str , "%s" , ILDG_start ) ;
+  if( ILDG_str != NULL ) { sprintf( ILDG_str , "%s" , ILDG_start ) ; }
 #ifdef SINGLE_PREC
   append_char( &ILDG_str , "<field>su3gauge</field><precision>32</precision>" ) ;
 #else
@@ -382,17 +394,17 @@ write_header_ILDG( FILE *__restrict out )
   }
   sprintf( tmp , "%s%zu%s%s" , open[3] , Latt.dims[ND-1] , close[3] , ILDG_end ) ;
   append_char( &ILDG_str , tmp ) ;
-  write_SCIDAC_binary( out , ILDG_str , strlen( ILDG_str ) , "ildg-format" ) ;
+  FLAG |= write_SCIDAC_binary( out , ILDG_str , record_len( ILDG_str ) , "ildg-format" ) ;
   free( ILDG_str ) ;
 
   // Logical file name; just leave it blank for now
-  write_SCIDAC_binary( out , "lfn://" , strlen( "lfn://" ) , "ildg-data-lfn" ) ;
+  FLAG |= write_SCIDAC_binary( out , "lfn://" , strlen( "lfn://" ) , "ildg-data-lfn" ) ;
 	   
   // and then leave space for the gauge field
   char *nada = "" ; 
-  write_SCIDAC_binary( out , nada , sizeof( GLU_real )*LVOLUME*ND*NCNC*2 , 
+  FLAG |= write_SCIDAC_binary( out , nada , sizeof( GLU_real )*LVOLUME*ND*NCNC*2 , 
 		       "ildg-binary-data" ) ; // the 2 is for complex
-  return ;
+  return FLAG == GLU_SUCCESS ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // clean this up
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..12adbd4 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -280,7 +280,7 @@ copy_data( GLU_real *uout ,
 }
 
 // writes the fields as binary data
-static void
+static int
 write_binary_data( const struct site *lat ,
 		   FILE *__restrict outfile ,
 		   const GLU_output checktype ,
@@ -289,6 +289,10 @@ write_binary_data( const struct site *lat ,
 { 
   // write out in working precision
   GLU_real *uout = ( GLU_real* ) malloc( LATT_LOOP  * sizeof( GLU_real ) ) ; 
+  if( uout == NULL ) {
+    fprintf( stderr , "[IO] output allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // copy lattice data into uout 
   copy_data( uout , lat , 0 , LVOLUME , LOOP_VAR , checktype ) ;
@@ -297,11 +301,11 @@ write_binary_data( const struct site *lat ,
   byteswap_and_write( outfile , uout , LATT_LOOP ) ;
 
   free( uout ) ;
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // writes the fields as binary data -> SLICE by SLICE version
-static void
+static int
 write_binary_data_cheap( const struct site *__restrict lat ,
 			 FILE *__restrict outfile ,
 			 const GLU_output checktype ,
@@ -310,6 +314,10 @@ write_binary_data_cheap( const struct site *__restrict lat ,
   // write out in working precision
   GLU_real *uout = ( GLU_real* ) malloc( LCU * LOOP_VAR * 
 					 ND * sizeof( GLU_real ) ) ; 
+  if( uout == NULL ) {
+    fprintf( stderr , "[IO] output allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   size_t t ;
   for( t = 0 ; t < Latt.dims[ ND - 1 ] ; t++ ) {
@@ -322,7 +330,7 @@ write_binary_data_cheap( const struct site *__restrict lat ,
   }
 
   free( uout ) ;
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // This is just the wrapping function for the writers
@@ -339,17 +347,17 @@ write_lat( struct site *lat ,
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
     start_timer() ;
-    write_CLS_field( lat , out ) ;
+    const int FLAG = write_CLS_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return FLAG ;
   }
   // HIREP stuff is all handled in HIREP.c
   if( type == OUTPUT_HIREP ) {
     printf( "[IO] Writing out in HIREP format\n" ) ;
     start_timer() ;
-    write_gauge_field( lat , out ) ;
+    const int FLAG = write_gauge_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return FLAG ;
   }
 
   // loop variables
@@ -384,10 +392,10 @@ write_lat( struct site *lat ,
     write_header_MILC( out , milc_cksum29 , milc_cksum31 ) ;
     break ;
   case OUTPUT_SCIDAC :
-    write_header_SCIDAC( out ) ;
+    if( write_header_SCIDAC( out ) == GLU_FAILURE ) return GLU_FAILURE ;
     break ;
   case OUTPUT_ILDG :
-    write_header_ILDG( out ) ;
+    if( write_header_ILDG( out ) == GLU_FAILURE ) return GLU_FAILURE ;
     break ;
   default :
     return GLU_FAILURE ;
@@ -397,17 +405,26 @@ write_lat( struct site *lat ,
   const int SAFETY = have_memory_readers_writers( checktype ) ;
   if( SAFETY != FAST ) {
     fprintf( stdout , "[IO] Using the slower/memory cheaper code \n" ) ;
-    write_binary_data_cheap( lat , out , checktype , LOOP_VAR ) ;
+    if( write_binary_data_cheap( lat , out , checktype , 
+				 LOOP_VAR ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
   } else {
     fprintf( stdout , "[IO] Using the faster/memory expensive code \n" ) ;
-    write_binary_data( lat , out , checktype , LATT_LOOP , LOOP_VAR ) ;
+    if( write_binary_data( lat , out , checktype , LATT_LOOP , 
+			   LOOP_VAR ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
   }
 
   // need to write out the scidac checksums here
   switch( type ) {
   case OUTPUT_SCIDAC :
   case OUTPUT_ILDG :
-    write_trailing_header_SCIDAC( out , scidac_cksum29 , scidac_cksum31 ) ;
+    if( write_trailing_header_SCIDAC( out , scidac_cksum29 , 
+				      scidac_cksum31 ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     break ;
   default :
     break ;
diff --git a/src/Utils/str_stuff.c b/src/Utils/str_stuff.c
index 8f73370..1247523 100644
--- a/src/Utils/str_stuff.c
+++ b/src/Utils/str_stuff.c
@@ -9,8 +9,15 @@ void
 append_char( char **str ,
 	     const char *tmp )
 {
-  *str = realloc( *str , (1+strlen(tmp)+strlen(*str))*sizeof(char) ) ;
-  *str = strcat( *str , tmp ) ;
+  // an allocation failure leaves us with a NULL string
+  if( *str == NULL ) return ;
+  char *new_str = realloc( *str , (1+strlen(tmp)+strlen(*str))*sizeof(char) ) ;
+  if( new_str == NULL ) {
+    free( *str ) ;
+    *str = NULL ;
+    return ;
+  }
+  *str = strcat( new_str , tmp ) ;
 }
 
 // strcmp defaults to 0 if they are equal which is contrary to standard if statements
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index fc10871..6dbba6a 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -40,6 +40,8 @@
 #include "writers.h"        // write out a configuration
 #include "GLU_timer.h"      // reporting IO timing
 
+#include <errno.h>
+
 // allow for some very necessary precomputations ...
 #if NC > 3 
   #include "taylor_logs.h"  // precomputes Taylor series coefficients
@@ -154,18 +156,6 @@ read_file( struct head_data *HEAD_DATA ,
   return lat ;
 }
 
-static GLU_bool
-file_exists( const char *outfile )
-{
-  FILE *out_config = fopen( outfile , "r" ) ;
-  GLU_bool FLAG = GLU_FALSE ;
-  if( out_config != NULL ) {
-    FLAG = GLU_TRUE ;
-    fclose( out_config ) ;
-  }
-  return FLAG ;
-}
-
 // write out lat
 int
 write_configuration( struct site *lat , 
@@ -173,17 +163,26 @@ write_configuration( struct site *lat ,
 		     const GLU_output storage , 
 		     const char *output_details )
 {
-  //attempt to open a file
-  if( file_exists( outfile ) == GLU_TRUE ) {
-    fprintf( stderr , "\n[IO] WARNING :: attempting to overwrite a non-empty "
-	     "file %s .. I will not do this!\n" , outfile ) ;
+  // attempt to open a file, creation fails if it is already there
+  FILE *out_config = fopen( outfile , "wx" ) ;
+  if( out_config == NULL ) {
+    if( errno == EEXIST ) {
+      fprintf( stderr , "\n[IO] WARNING :: attempting to overwrite a non-empty "
+	       "file %s .. I will not do this!\n" , outfile ) ;
+    } else {
+      fprintf( stderr , "\n[IO] cannot open %s for writing\n" , outfile ) ;
+    }
+    return GLU_FAILURE ;
+  }
+  int FLAG = write_lat( lat , out_config , storage , output_details ) ;
+  // writing can fail at any point up to and including the close
+  if( ferror( out_config ) ) { FLAG = GLU_FAILURE ; }
+  if( fclose( out_config ) != 0 ) { FLAG = GLU_FAILURE ; }
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "\n[IO] failure writing configuration %s\n" , outfile ) ;
     return GLU_FAILURE ;
-  } else {
-    FILE *out_config = fopen( outfile , "w" ) ;
-    write_lat( lat , out_config , storage , output_details ) ;
-    fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-    fclose( out_config ) ;
   }
+  fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
   return GLU_SUCCESS ;
 }
 
-- 
2.43.0


From f94f3326c2e649679c24a5ce36a90e557ad3064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 02/51] fix: memory-cheap writer indexed its one-slice buffer
 with the global site

---
 src/IO/writers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 12adbd4..84f7bba 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -266,7 +266,7 @@ copy_data( GLU_real *uout ,
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
     // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From 1ab00464e4ba27cc90ac1089e8a5257e57aadf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 03/51] fix: propagate failures of the run modes to the exit
 status

---
 src/Headers/CUT_wrap.h       |  4 ++--
 src/Headers/SUNCxU1_config.h |  5 +++--
 src/Run/Mainfile.c           | 27 ++++++++++++++------------
 src/Wrappers/CUT_wrap.c      | 19 +++++++++---------
 src/Wrappers/GF_wrap.c       | 18 ++++++++++--------
 src/Wrappers/GLUlib_wrap.c   | 35 ++++++++++++++++++----------------
 src/Wrappers/SM_wrap.c       | 37 ++++++++++++++++--------------------
 7 files changed, 75 insertions(+), 70 deletions(-)

diff --git a/src/Headers/CUT_wrap.h b/src/Headers/CUT_wrap.h
index c5ef364..1900e93 100755
--- a/src/Headers/CUT_wrap.h
+++ b/src/Headers/CUT_wrap.h
@@ -24,14 +24,14 @@
 #define GLU_CUT_WRAP
 
 /**
-   @fn void cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
+   @fn int cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
    @brief Wrapper function
 
    @param lat :: Gauge fields
    @param CUTINFO :: cutting information
    @param SMINFO :: smearing information
  */
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO ) ;
diff --git a/src/Headers/SUNCxU1_config.h b/src/Headers/SUNCxU1_config.h
index 6d81587..6b9101c 100755
--- a/src/Headers/SUNCxU1_config.h
+++ b/src/Headers/SUNCxU1_config.h
@@ -24,16 +24,17 @@
 #define GLU_SUNCxU1_CONFIG_H
 
 /**
-   @fn void suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
+   @fn int suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
    @brief creates links which are multiplied by a non-compact U(1) field
 
    @warning rewrites the gauge field
+   @return #GLU_SUCCESS or #GLU_FAILURE
    @warning cannot write out configurations in any format but NCxNC #config_size
 
    calls compute_U1_obs()
    
  */
-void 
+int 
 suNC_cross_u1( struct site *__restrict lat , 
 	       const struct u1_info U1INFO ) ;
 
diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index 6e7303f..efe9d48 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -59,35 +59,38 @@ main( const int argc ,
   // and make the input data constant
   const struct infile_data INFILE = infile_struct ;
 
+  // whether what was asked for got done
+  int FLAG = GLU_SUCCESS ;
+
   // and the options
   switch( INFILE.mode ) {
   case MODE_GF :
-    read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
-		  argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
+    FLAG = read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
+			 argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CUTS :
-    read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
+    FLAG = read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
     break ;
   case MODE_SMEARING :
-    read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
-		    argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
+    FLAG = read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
+			   argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CROSS_U1 :
-    read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
-		 argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
+    FLAG = read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
+			argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_HEATBATH :
-    heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
-	      INFILE.output_details ) ;
+    FLAG = heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
+		     INFILE.output_details ) ;
     break ;
   default :
-    read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
-		    INFILE.storage , INFILE.output_details ) ;
+    FLAG = read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
+			   INFILE.storage , INFILE.output_details ) ;
     break ;
   }
 
   // un-initialise GLU
   unstick_GLU( ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Wrappers/CUT_wrap.c b/src/Wrappers/CUT_wrap.c
index 0506e6d..52c15a5 100755
--- a/src/Wrappers/CUT_wrap.c
+++ b/src/Wrappers/CUT_wrap.c
@@ -31,44 +31,45 @@
 #include "smearing_param.h" // smeared gluon propagator
 
 // wrapper for the variousfa momentum-cutting and other measurement options
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO )
 {
+  int FLAG = GLU_FAILURE ;
   start_timer( ) ;
 
   ///////////// CREATE CUTS ////////////
   switch( CUTINFO.dir ) {
   case INSTANTANEOUS_GLUONS :
-    cuts_spatial( lat , CUTINFO ) ;
+    FLAG = cuts_spatial( lat , CUTINFO ) ;
     break ;
   case CONFIGSPACE_GLUONS :
-    cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
+    FLAG = cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
     break ;
   case SMEARED_GLUONS :
-    cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
+    FLAG = cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
     break ;
   case STATIC_POTENTIAL :
-    Coul_staticpot( lat , CUTINFO , SMINFO ) ;
+    FLAG = Coul_staticpot( lat , CUTINFO , SMINFO ) ;
     break ;
   case TOPOLOGICAL_CORRELATOR :
   case TOPOLOGICAL_MOMENTS :
   case TOPOLOGICAL_SUSCEPTIBILITY :
-    compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
+    FLAG = compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
     break ;
   case GLUON_PROPS :
   case EXCEPTIONAL :
   case NONEXCEPTIONAL :
   case FIELDS :
     // all of the other momentum space routines are in here
-    cuts_struct( lat , CUTINFO ) ;
+    FLAG = cuts_struct( lat , CUTINFO ) ;
     break ;
   default :
-    return ;
+    return GLU_FAILURE ;
   }
 
   print_time( ) ;
 
-  return ;
+  return FLAG ;
 }
diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index bcc8850..544474d 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -48,16 +48,16 @@ GF_wrap_coulomb( struct site *lat ,
 #ifdef OVERRELAXED_GF
   // we could check iters if we wanted, actually we do want to
   double acc ;
-  OrCoulomb( lat , &acc , GFINFO.max_iters ,
-	     GFINFO.accuracy , Latt.gf_alpha ) ;
+  const size_t iters = OrCoulomb( lat , &acc , GFINFO.max_iters ,
+				  GFINFO.accuracy , Latt.gf_alpha ) ;
 #else
   // we could check iters if we wanted, actually we do want to
-  Coulomb( lat , GFINFO.accuracy , GFINFO.max_iters ) ; 
+  const size_t iters = Coulomb( lat , GFINFO.accuracy , GFINFO.max_iters ) ; 
 #endif
 
   print_time() ;
 
-  return GLU_SUCCESS ;
+  return ( iters == (size_t)GLU_FAILURE ) ? GLU_FAILURE : GLU_SUCCESS ;
 }
 
 // landau wrapper
@@ -78,7 +78,7 @@ GF_wrap_landau( struct site *lat ,
   iters = Landau( lat , GFINFO.accuracy , GFINFO.max_iters , infile ) ;
 #endif
   print_time( ) ;
-  return iters ;
+  return ( iters == (size_t)GLU_FAILURE ) ? GLU_FAILURE : GLU_SUCCESS ;
 }
 
 // print out the details
@@ -195,11 +195,13 @@ GF_wrap( const char *infile ,
   case GLU_COULOMB_FIX :
     return GF_wrap_coulomb( lat , GFINFO ) ;
   case GLU_COULOMB_RESIDUAL_FIX :
-    GF_wrap_coulomb( lat , GFINFO ) ;
+    if( GF_wrap_coulomb( lat , GFINFO ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "\n[GF] Residual gauge fixing step \n" ) ;
-    residual_fix( lat ) ;
+    flag = residual_fix( lat ) ;
     output_information( lat ) ;
-    return GLU_SUCCESS ;
+    return flag ;
   case GLU_LANDAU_FIX :
     return GF_wrap_landau( lat , infile , GFINFO ) ;
   case GLU_MAG_FIX :
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 6dbba6a..ccc5f32 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -94,7 +94,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct head_data tmp ;
   if( read_header( infile , &tmp , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[IO] Header reading failure\n" ) ;
-    fclose( infile ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   } 
 
@@ -103,7 +103,7 @@ read_file( struct head_data *HEAD_DATA ,
 
   // check for having enough memory for the gauge field
   if( have_memory_gauge( ) == GLU_FAILURE ) {
-    fclose( infile ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   }
 
@@ -111,6 +111,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct site *lat = NULL ;
   if( ( lat = allocate_lat( ) ) == NULL ) {
     fprintf( stderr , "[IO] Gauge field allocation failure\n" ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   }
 
@@ -125,8 +126,8 @@ read_file( struct head_data *HEAD_DATA ,
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
     fprintf( stderr , "[IO] File read error ... Leaving \n" ) ;
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
+    free_lat( lat ) ;
     return NULL ;
   }
 
@@ -139,8 +140,8 @@ read_file( struct head_data *HEAD_DATA ,
 
   // have a look at some available checks
   if( checks( lat , check , tmp ) == GLU_FAILURE ) { 
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
+    free_lat( lat ) ;
     return NULL ; 
   }
 
@@ -200,12 +201,13 @@ heatbath( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // heatbath updates
-  hb_update( lat , HBINFO , infile , storage , output_details ) ;
+  const int FLAG = hb_update( lat , HBINFO , infile , storage ,
+			      output_details ) ;
   
   // free the gauge fields
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // checks unitarity and can write out a configuration
@@ -249,11 +251,11 @@ read_and_cut( const char *infile ,
   // should print out a warning
   if( lat == NULL ) return GLU_FAILURE ;
 
-  cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
+  const int FLAG = cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
 
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // gauge fixing
@@ -274,9 +276,10 @@ read_and_fix( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  GF_wrap( infile , lat , GFINFO ) ;
+  FLAG = GF_wrap( infile , lat , GFINFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
+  // the configuration is only written if there is one
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -303,9 +306,9 @@ read_and_smear( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  SM_wrap_struct( lat , SMINFO ) ;
+  FLAG = SM_wrap_struct( lat , SMINFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -332,9 +335,9 @@ read_and_U1( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  suNC_cross_u1( lat , U1INFO ) ;
+  FLAG = suNC_cross_u1( lat , U1INFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f679820..58babd0 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -38,7 +38,7 @@
 #include "wflow.h"          // fixed-epsilon wilson flow
 
 // Selects the correct code to run ...
-static void
+static int
 hyp_chooser( struct site *__restrict lat ,
 	     const struct sm_info SMINFO ,
 	     const int meminfo )
@@ -50,9 +50,8 @@ hyp_chooser( struct site *__restrict lat ,
     if( SMINFO.type == SM_ADAPTWFLOW_LOG ) {
       GENTYPE = SM_LOG ;
     }
-    flow_adaptive_RK3( lat , SMINFO.smiters , 
+    return flow_adaptive_RK3( lat , SMINFO.smiters , 
 		      GLU_FORWARD , GENTYPE ) ;
-    return ;
   }
   // RK4 method of integrating the flow equation
   if( SMINFO.type == SM_WFLOW_LOG || 
@@ -63,13 +62,11 @@ hyp_chooser( struct site *__restrict lat ,
     }
     switch( meminfo ){
     case FAST :
-      flow_RK3( lat , SMINFO.smiters , 
+      return flow_RK3( lat , SMINFO.smiters , 
 		GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
-      return ;
     case MODERATE :
-      flow_RK3( lat , SMINFO.smiters , 
+      return flow_RK3( lat , SMINFO.smiters , 
 		GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
-      return ;
     }
   }
   // The original decision for the smearing methods
@@ -78,31 +75,28 @@ hyp_chooser( struct site *__restrict lat ,
   if( SMINFO.type == SM_APE || SMINFO.type == SM_STOUT 
       || SMINFO.type == SM_LOG ) {
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      smear3D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
-      smear4D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear4D( lat , SMINFO.smiters , GENTYPE ) ;
     }
   } else {
     #if ND != 4
-    HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
+    return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
     #else
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ; 
-      return ;
+      return HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
       switch( meminfo ) {
       case FAST :
-	HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
-	return ;
+	return HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
       case MODERATE :
       case SLOW :
-	HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
-	return ;
+	return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
       }
     }
     #endif
   }
-  return ;
+  return GLU_FAILURE ;
 }
 
 // is it smear or wilson flow?
@@ -238,24 +232,25 @@ SM_wrap_struct( struct site *__restrict lat ,
   fprintf( stdout , "[SMEAR] O(a^2) Clover Term being used ... \n" ) ;
   #endif
 #endif
+  int FLAG = GLU_SUCCESS ;
   start_timer( ) ;
   print_smearinfo( SMINFO ) ;
   if( SMINFO.type == SM_HYP || 
       SMINFO.type == SM_HEX || 
       SMINFO.type == SM_HYL )  {
     const int meminfo = have_memory_hyp( SMINFO ) ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    FLAG = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else if( SMINFO.type == SM_WFLOW_LOG || 
 	     SMINFO.type == SM_ADAPTWFLOW_LOG ||
 	     SMINFO.type == SM_WFLOW_STOUT || 
 	     SMINFO.type == SM_ADAPTWFLOW_STOUT )  {
     const int meminfo = have_memory_wf( SMINFO ) ;
     if( meminfo == GLU_FAILURE ) { return GLU_FAILURE ; }
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    FLAG = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else {
     const int meminfo = 0 ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    FLAG = hyp_chooser( lat , SMINFO , meminfo ) ;
   }
   print_time( ) ;
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
-- 
2.43.0


From f0fd15b456076e553c9b53f352e96ae1ba6cf6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 04/51] fix: U(1) field: conjugate momentum of odd lattices,
 report setup failures

---
 src/U1/SUNCxU1_config.c | 63 +++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index a9025d2..2352bcb 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -38,40 +38,18 @@
 // just to make it clear what we are doing
 enum{ CONJUGATE_NOT_IN_LIST , CONJUGATE_IN_LIST } ;
 
-// little inline for the ( 0 , 0 , .. , 0 ) point in the -Pi -> Pi BZ
-static size_t
-compute_zeropoint( void )
-{
-#if ND == 4
-  return ( Latt.dims[0] * ( 1 + Latt.dims[1] * ( 1 + Latt.dims[2] * ( 1 + Latt.dims[3] ) ) ) ) >> 1 ;
-#else
-  size_t check = Latt.dims[ ND-1 ] , mu ;
-  for( mu = ND-2 ; mu != 0 ; mu-- ) {
-    check = Latt.dims[ mu ] * ( 1 + check ) ;
-  }
-  return check >> 1 ;
-#endif
-}
-
 // compute the conjugate site to "i"
 static size_t
 conjugate_site( const size_t i )
 {
   int x[ ND ] ;
-  get_mom_pipi( x , i , ND ) ;
-  #if ND == 4
-  x[0] = -x[0] ;
-  x[1] = -x[1] ;
-  x[2] = -x[2] ;
-  x[3] = -x[3] ;
-  #else
+  get_mom_2piBZ( x , i , ND ) ;
+  // the conjugate of n is -n mod L , for even and odd lattice extents
   size_t mu ;
-  for( mu = 0 ; mu < ND ; mu++ ) { x[mu] = -x[mu] ; }
-  #endif
-  //  contrary to what its name may suggest get_site_2piBZ translates
-  //  the -pi to pi BZ coordinates to a site in the 0->2Pi lattice
-  //  which is what the FFT uses
-  return get_site_2piBZ( x , ND ) ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    x[mu] = x[mu] == 0 ? 0 : (int)Latt.dims[mu] - x[mu] ;
+  }
+  return gen_site( x ) ;
 }
 
 // periodic fields using the DFT
@@ -94,8 +72,7 @@ periodic_dft( struct fftw_stuff *FFTW )
     }
     #endif
   }  
-  const size_t SYMM_POINT = compute_zeropoint( ) + 1 ;
-  for( i = 0 ; i < SYMM_POINT ; i++ ) {
+  for( i = 0 ; i < LVOLUME ; i++ ) {
     const size_t b = conjugate_site( i ) ;
     if( i == b ) {
       for( size_t mu = 0 ; mu < ND ; mu++ ) {
@@ -205,14 +182,26 @@ suNC_cross_u1( struct site *lat ,
   start_timer( ) ;
 
   // initialise the rng
-  initialise_par_rng( NULL ) ;
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    fprintf( stderr , "[U1] could not initialise the rng\n" ) ;
+    return GLU_FAILURE ;
+  }
 
+  int FLAG = GLU_SUCCESS ;
   struct fftw_stuff FFTW ;
-  create_plans_DFT( &FFTW , Latt.dims , ND , ND ) ;
+  if( create_plans_DFT( &FFTW , Latt.dims , ND , ND ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   // set psq to the QEDL prescription
   size_t i ; 
   FFTW.psq = malloc( LVOLUME*sizeof( GLU_real ) ) ;
+  if( FFTW.psq == NULL ) {
+    fprintf( stderr , "[U1] could not allocate the momenta\n" ) ;
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
+  }
   for( i = 0 ; i < LVOLUME ; i++ ) {
     int flag = 0 ;
     register const GLU_real f = 1.0 / (GLU_real)sqrt( gen_p_sq_feyn( i , &flag ) ) ;
@@ -224,7 +213,11 @@ suNC_cross_u1( struct site *lat ,
   }
 
   // create the U1 field ...
-  create_u1( lat , &FFTW, U1INFO ) ;
+  if( create_u1( lat , &FFTW, U1INFO ) == GLU_FAILURE ) {
+    fprintf( stderr , "[U1] failed to create the U(1) field\n" ) ;
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   fprintf( stdout , "[U1] SUNCxU1 created ....\n" ) ;
   
@@ -234,7 +227,9 @@ suNC_cross_u1( struct site *lat ,
   print_time() ;
 
   fprintf( stdout , "[U1] U1 Memory Cleanup ....\n" ) ;
+
+ memfree :
   clean_up_fftw( FFTW , ND ) ;
+  return FLAG ;
 #endif
-  return GLU_SUCCESS ;
 }
-- 
2.43.0


From 849fa6e89de40b6272883517c424428e0481c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 05/51] fix: check the allocations behind the FFT plans

---
 src/Geometry/plan_ffts.c | 51 ++++++++++++++++++++++++++++++++--------
 src/Headers/plan_ffts.h  |  8 +++----
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/Geometry/plan_ffts.c b/src/Geometry/plan_ffts.c
index e988d04..9f52e9e 100755
--- a/src/Geometry/plan_ffts.c
+++ b/src/Geometry/plan_ffts.c
@@ -82,10 +82,11 @@ clean_up_fftw( struct fftw_stuff FFTW ,
 {
   size_t i ;
   for( i = 0 ; i < ARR_SIZE; i++ ) {
-    fftw_destroy_plan( FFTW.forward[i] ) ;   
-    fftw_destroy_plan( FFTW.backward[i] ) ;  
-    fftw_free( FFTW.out[i] ) ; 
-    fftw_free( FFTW.in[i] ) ; 
+    // any of these can be missing if planning failed
+    if( FFTW.forward  != NULL ) { fftw_destroy_plan( FFTW.forward[i] ) ; }
+    if( FFTW.backward != NULL ) { fftw_destroy_plan( FFTW.backward[i] ) ; }
+    if( FFTW.out      != NULL ) { fftw_free( FFTW.out[i] ) ; }
+    if( FFTW.in       != NULL ) { fftw_free( FFTW.in[i] ) ; }
   }
   fftw_free( FFTW.out ) ; 
   fftw_free( FFTW.in ) ; 
@@ -99,7 +100,7 @@ clean_up_fftw( struct fftw_stuff FFTW ,
 }
 
 // record both the forward and backward
-void
+int
 create_plans_DFT( struct fftw_stuff *FFTW ,
 		  const size_t dims[ ND ] ,
 		  const size_t ARR_SIZE ,
@@ -125,6 +126,20 @@ create_plans_DFT( struct fftw_stuff *FFTW ,
   FFTW -> in       = fftw_malloc( ARR_SIZE * sizeof( GLU_complex* ) ) ;
   FFTW -> psq      = NULL ;
 
+  // flag for whether all of the memory was allocated
+  int FLAG = GLU_SUCCESS ;
+  for( i = 0 ; i < ARR_SIZE ; i++ ) {
+    if( FFTW -> forward  != NULL ) { FFTW -> forward[i]  = NULL ; }
+    if( FFTW -> backward != NULL ) { FFTW -> backward[i] = NULL ; }
+    if( FFTW -> out      != NULL ) { FFTW -> out[i]      = NULL ; }
+    if( FFTW -> in       != NULL ) { FFTW -> in[i]       = NULL ; }
+  }
+  if( FFTW -> forward == NULL || FFTW -> backward == NULL ||
+      FFTW -> out == NULL || FFTW -> in == NULL ) {
+    fprintf( stderr , "[FFTW] failed to allocate the arrays\n" ) ;
+    return GLU_FAILURE ;
+  }
+
 #pragma omp parallel
   {
     #pragma omp for private(i)
@@ -134,12 +149,22 @@ create_plans_DFT( struct fftw_stuff *FFTW ,
     }
   }
   
+  for( i = 0 ; i < ARR_SIZE ; i++ ) {
+    if( FFTW -> out[i] == NULL || FFTW -> in[i] == NULL ) {
+      FLAG = GLU_FAILURE ;
+    }
+  }
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "[FFTW] failed to allocate the arrays\n" ) ;
+    return GLU_FAILURE ;
+  }
+
 #ifndef CONDOR_MODE
   int planflag = NOPLAN ;
   char *str = obtain_wisdom( &planflag , dims , DIR , "" ) ;
 #else
   char *str = malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ;
-  sprintf( str , "%s" , HAVE_PREFIX ) ;
+  if( str != NULL ) { sprintf( str , "%s" , HAVE_PREFIX ) ; }
 #endif
   
   for( mu = 0 ; mu < ARR_SIZE ; mu++ ) {
@@ -164,7 +189,7 @@ create_plans_DFT( struct fftw_stuff *FFTW ,
 #endif
   free( str ) ;
 
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // clean up the arrays allocated by small_create_plans_DFT
@@ -184,7 +209,7 @@ small_clean_up_fftw( struct fftw_small_stuff FFTW )
 }
 
 /// Small plan does not care about the NC unlike the above
-void
+int
 small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
 			const size_t dims[ ND ] ,
 			const size_t DIR )
@@ -202,6 +227,12 @@ small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
   FFTW -> in = fftw_malloc( VOL * sizeof( GLU_complex ) ) ;
   FFTW -> out = fftw_malloc( VOL * sizeof( GLU_complex ) ) ;
   FFTW -> psq = NULL ;
+  FFTW -> forward = NULL ;
+  FFTW -> backward = NULL ;
+  if( FFTW -> in == NULL || FFTW -> out == NULL ) {
+    fprintf( stderr , "[FFTW] failed to allocate the arrays\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // initialise the clock
   #ifdef verbose
@@ -213,7 +244,7 @@ small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
   char *str = obtain_wisdom( &planflag , dims , DIR , "single_" ) ;
 #else
   char *str = malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ;
-  sprintf( str , "%s" , HAVE_PREFIX ) ;
+  if( str != NULL ) { sprintf( str , "%s" , HAVE_PREFIX ) ; }
 #endif
 
   FFTW -> forward = fftw_plan_dft( DIR , dimes ,
@@ -236,7 +267,7 @@ small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
 #endif
   free( str ) ;
 
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // and clean this up
diff --git a/src/Headers/plan_ffts.h b/src/Headers/plan_ffts.h
index 1e78a94..9efecb5 100755
--- a/src/Headers/plan_ffts.h
+++ b/src/Headers/plan_ffts.h
@@ -36,14 +36,14 @@ clean_up_fftw( struct fftw_stuff FFTW ,
 	       const size_t ARR_SIZE ) ;
 
 /**
-   @fn void create_plans_DFT( struct fftw_stuff *FFTW , const size_t dims[ ND ] , const int ARR_SIZE , const size_t DIR )
+   @fn int create_plans_DFT( struct fftw_stuff *FFTW , const size_t dims[ ND ] , const int ARR_SIZE , const size_t DIR )
    @brief create the plans and allocate arrays for the DFT
    @param FFTW :: temporary arrays
    @param dims :: dimensions of the fft
    @param ARR_SIZE :: first index length of FFTW.**in and FFTW.**out
    @param DIR :: number of dimensions of the FFT, need not be #ND
  */
-void
+int
 create_plans_DFT( struct fftw_stuff *FFTW ,
 		  const size_t dims[ ND ] ,
 		  const size_t ARR_SIZE ,
@@ -58,13 +58,13 @@ void
 small_clean_up_fftw( struct fftw_small_stuff FFTW ) ;
 
 /**
-   @fn void small_create_plans_DFT( struct fftw_small_stuff *FFTW , const size_t dims[ ND ] , const size_t DIR )
+   @fn int small_create_plans_DFT( struct fftw_small_stuff *FFTW , const size_t dims[ ND ] , const size_t DIR )
    @brief create plans and allocate arrays of FFTW.*in etc
    @param FFTW :: temporary fft arrays
    @param dims :: dimensions of the FFT in GLU order
    @param DIR :: dimensionality of the FFT, need not be #ND
  */
-void
+int
 small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
 			const size_t dims[ ND ] ,
 			const size_t DIR ) ;
-- 
2.43.0


From d7841ead2af8997dbdbd271942f95344a6ad80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 06/51] fix: draughtboard colouring of odd sides put neighbours
 in the same colour

---
 src/Geometry/draughtboard.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index f857884..8d513e3 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -38,8 +38,10 @@ void
 free_cb( struct draughtboard *db )
 {
   size_t i ;
-  for( i = 0 ; i < db -> Ncolors ; i++ ) {
-    free( db -> square[i] ) ;
+  if( db -> square != NULL ) {
+    for( i = 0 ; i < db -> Ncolors ; i++ ) {
+      free( db -> square[i] ) ;
+    }
   }
   free( db -> Nsquare ) ;
   free( db -> square ) ;
@@ -59,7 +61,9 @@ get_midx( const size_t i ,
     if( ( Latt.dims[mu]&1 ) == 0 ) {
       even_sum += n[mu] ;
     } else {
-      odd_sum  += n[mu] ;
+      // the last site neighbors the first so it needs a different color
+      odd_sum  += ( n[mu] > 0 && n[mu]%3 == 0 && n[mu] == (int)Latt.dims[mu]-1 ) ?
+	1 : n[mu] ;
     }
   }
 #ifdef verbose
@@ -83,9 +87,17 @@ init_cb( struct draughtboard *db ,
   db -> Ncolors = 3 ;
   db -> square  = malloc( db -> Ncolors * sizeof( size_t* ) ) ;
   db -> Nsquare = malloc( db -> Ncolors * sizeof( size_t ) ) ;
+  if( db -> square == NULL || db -> Nsquare == NULL ) {
+    fprintf( stderr , "[DB] allocation failure\n" ) ;
+    free( db -> square ) ; db -> square = NULL ;
+    free( db -> Nsquare ) ; db -> Nsquare = NULL ;
+    db -> Ncolors = 0 ;
+    return GLU_FAILURE ;
+  }
   
   // set the counters to zero
   for( i = 0 ; i < db -> Ncolors ; i++ ) {
+    db -> square[i] = NULL ;
     db -> Nsquare[i] = 0 ;
   }
 
@@ -105,10 +117,13 @@ init_cb( struct draughtboard *db ,
     fprintf( stdout , "[DB] COLOR_%zu :: %zu \n" , i , db -> Nsquare[i] ) ;
     #endif
     if( db -> Nsquare[i] == 0 ) {
-      db -> square[i] = NULL ;
       return GLU_FAILURE ;
     } else {
       db -> square[i] = malloc( db -> Nsquare[i] * sizeof( size_t ) ) ;
+      if( db -> square[i] == NULL ) {
+	fprintf( stderr , "[DB] allocation failure\n" ) ;
+	return GLU_FAILURE ;
+      }
     }
     db -> Nsquare[i] = 0 ;
   }
-- 
2.43.0


From 9e6cc4d93f694cf48fe55c21933907553692e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 07/51] fix: bounded gauge-fixing restarts, non-convergence is
 a failure, checked allocations

---
 src/Gfix/CFACG.c              | 12 ++++--
 src/Gfix/CGalloc.c            | 20 +++++++++-
 src/Gfix/Coulomb.c            | 31 ++++++++++++---
 src/Gfix/FACG.c               | 43 +++++++++++++--------
 src/Gfix/Landau.c             | 71 ++++++++++++++++++++++++++++-------
 src/Gfix/MAG.c                | 32 ++++++++++++----
 src/Gfix/Or.c                 | 12 +++++-
 src/Headers/GLU_definitions.h |  6 +++
 8 files changed, 177 insertions(+), 50 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index b87add8..5e39f8b 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -476,7 +476,7 @@ steep_fix( GLU_complex **gauge ,
 {
   // perform a Fourier accelerated step, this is where the CG can go ...
     double tr = 1.0 ;
-    size_t loc_iters = 0 , tot_iters = 0 , control = 0 ;
+    size_t loc_iters = 0 , tot_iters = 0 , control = 0 , ncont = 0 ;
     GLU_bool trans_flag = GLU_FALSE ;
 
  top :
@@ -494,7 +494,8 @@ steep_fix( GLU_complex **gauge ,
 
     // attempt a continuation run if we are close to the desired accuracy
     if( loc_iters >= (max_iters) ) {
-      if( tr < 1E4*accuracy && !isnan( tr ) && !isinf( tr ) ) {
+      if( tr > accuracy && tr < 1E4*accuracy && ncont < GF_MAX_CONTINUATIONS ) {
+	ncont++ ;
 	tot_iters += loc_iters ;
 	goto top ;
       }
@@ -536,7 +537,10 @@ Coulomb_FA( struct site  *__restrict lat ,
 	    const GLU_bool FACG )
 {
   // init the rng
-  initialise_par_rng( NULL ) ;
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CG] problem initialising the rng\n" ) ;
+    return (size_t)GLU_FAILURE ;
+  }
   
   // set the iterations
   static size_t (*f)( GLU_complex **gauge ,
@@ -555,7 +559,6 @@ Coulomb_FA( struct site  *__restrict lat ,
   
   // CG temporaries
   struct CGtemps CG ;
-  CG.sn = NULL ; CG.in_old = NULL ; CG.red = NULL ;
 
   // gauge allocations 
   struct gauges G ;
@@ -566,6 +569,7 @@ Coulomb_FA( struct site  *__restrict lat ,
   // allocations
   if( allocate_temp_cg( &G , &CG , FACG ) == GLU_FAILURE ) {
     fprintf( stderr , "[CG] problem allocating temporary Coulomb arrays\n" ) ;
+    tot_its = (size_t)GLU_FAILURE ;
     goto memfree ;
   }
 
diff --git a/src/Gfix/CGalloc.c b/src/Gfix/CGalloc.c
index b644877..d49f83a 100644
--- a/src/Gfix/CGalloc.c
+++ b/src/Gfix/CGalloc.c
@@ -32,6 +32,10 @@ allocate_temp_cg( struct gauges *G ,
 {
   GLU_bool FLAG = GLU_FALSE ;
   size_t i ;
+  // so that everything can be freed if we leave early
+  G -> g = NULL ; G -> g_end = NULL ; G -> g_up = NULL ;
+  CG -> sn = NULL ; CG -> in_old = NULL ; CG -> red = NULL ;
+  CG -> db.square = NULL ; CG -> db.Nsquare = NULL ; CG -> db.Ncolors = 0 ;
   if( ( CG -> red = calloc( LINE_NSTEPS + CLINE * Latt.Nthreads , sizeof( double ) ) ) == NULL ) {
     FLAG = GLU_TRUE ;  goto end ;
   }
@@ -45,12 +49,18 @@ allocate_temp_cg( struct gauges *G ,
       GLU_malloc( (void**)&G->g_up   , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ) {
     FLAG = GLU_TRUE ; goto end ;
   }
+  memset( G -> g     , 0 , LCU * sizeof( GLU_complex* ) ) ;
+  memset( G -> g_end , 0 , LCU * sizeof( GLU_complex* ) ) ;
+  memset( G -> g_up  , 0 , LCU * sizeof( GLU_complex* ) ) ;
   // FACG has two other temporaries
   if( FACG == GLU_TRUE ) {
     if( GLU_malloc( (void**)&CG -> sn     , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ||
 	GLU_malloc( (void**)&CG -> in_old , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ) {
+      free( CG -> sn ) ; CG -> sn = NULL ;
       FLAG = GLU_TRUE ; goto end ;
     }
+    memset( CG -> sn     , 0 , TRUE_HERM * sizeof( GLU_complex* ) ) ;
+    memset( CG -> in_old , 0 , TRUE_HERM * sizeof( GLU_complex* ) ) ;
   }
   // reduce some overhead here
 #pragma omp parallel
@@ -60,7 +70,9 @@ allocate_temp_cg( struct gauges *G ,
       for( i = 0 ; i < TRUE_HERM ; i ++  ) {
 	if( GLU_malloc( (void**)&CG -> sn[i] , ALIGNMENT , LCU * sizeof( GLU_complex ) ) != 0 ||
 	    GLU_malloc( (void**)&CG -> in_old[i] , ALIGNMENT , LCU * sizeof( GLU_complex ) ) != 0 ) {
+          #pragma omp atomic write
 	  FLAG = GLU_TRUE ;
+	  continue ;
 	}
 	size_t j ;
 	for( j = 0 ; j < LCU ; j++ ) {
@@ -75,9 +87,9 @@ allocate_temp_cg( struct gauges *G ,
       if( GLU_malloc( (void**)&G->g[i]     , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ||
 	  GLU_malloc( (void**)&G->g_up[i]  , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ||
 	  GLU_malloc( (void**)&G->g_end[i] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+        #pragma omp atomic write
 	FLAG = GLU_TRUE ;
-      }
-      if( FLAG != GLU_TRUE ) {
+      } else {
 	// set gauge matrices to the identity
 	identity( G->g_up[i] ) ;
 	identity( G->g[i] ) ;
@@ -109,14 +121,18 @@ allocate_temp_lg( struct CGtemps *CG ,
   
   if( GLU_malloc( (void**)&CG->sn     , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ||
       GLU_malloc( (void**)&CG->in_old , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ) {
+    free( CG -> sn ) ; CG -> sn = NULL ;
     FLAG = GLU_TRUE ;  goto end ;
   }
+  memset( CG -> sn     , 0 , TRUE_HERM * sizeof( GLU_complex* ) ) ;
+  memset( CG -> in_old , 0 , TRUE_HERM * sizeof( GLU_complex* ) ) ;
 
   // allocate the conjugate directions
   #pragma omp parallel for private(i)
   for( i = 0 ; i < TRUE_HERM ; i++ ) {
     if( GLU_malloc( (void**)&CG->sn[i]     , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) != 0  ||
 	GLU_malloc( (void**)&CG->in_old[i] , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) != 0 ) {
+      #pragma omp atomic write
       FLAG = GLU_TRUE ;
     }
   }
diff --git a/src/Gfix/Coulomb.c b/src/Gfix/Coulomb.c
index 74bc52d..0bbd6b0 100755
--- a/src/Gfix/Coulomb.c
+++ b/src/Gfix/Coulomb.c
@@ -48,9 +48,12 @@ Coulomb( struct site *__restrict lat ,
 #ifdef HAVE_FFTW3_H
 
   // create the fftw plans, or read them if they are stored
-  create_plans_DFT( &FFTW , Latt.dims , TRUE_HERM , ND - 1 ) ;
-  
-  FFTW.psq = malloc( LCU * sizeof( GLU_real ) ) ; 
+  if( create_plans_DFT( &FFTW , Latt.dims , TRUE_HERM , ND - 1 ) == GLU_FAILURE ||
+      ( FFTW.psq = malloc( LCU * sizeof( GLU_real ) ) ) == NULL ) {
+    fprintf( stderr , "[GF] Coulomb failed to allocate its temporaries\n" ) ;
+    clean_up_fftw( FFTW , TRUE_HERM ) ;
+    return GLU_FAILURE ;
+  }
   
   // we calculate the lattice p-squared here and pass it to the FFT-accelerator
 #pragma omp parallel for private(i) 
@@ -61,10 +64,26 @@ Coulomb( struct site *__restrict lat ,
   /////  End of the search for Wisdom  ////
 #else
   
-  FFTW.in = malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ; 
+  if( ( FFTW.in = malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ) == NULL ) {
+    fprintf( stderr , "[GF] Coulomb failed to allocate its temporaries\n" ) ;
+    return GLU_FAILURE ;
+  }
+  int alloc_flag = GLU_SUCCESS ;
   #pragma omp parallel for private(i)
   for(  i = 0 ; i < TRUE_HERM ; i++  ) {
-    FFTW.in[i] = ( GLU_complex* )malloc( LCU * sizeof( GLU_complex ) ) ; 
+    FFTW.in[i] = ( GLU_complex* )malloc( LCU * sizeof( GLU_complex ) ) ;
+    if( FFTW.in[i] == NULL ) {
+      #pragma omp atomic write
+      alloc_flag = GLU_FAILURE ;
+    }
+  }
+  if( alloc_flag == GLU_FAILURE ) {
+    fprintf( stderr , "[GF] Coulomb failed to allocate its temporaries\n" ) ;
+    for( i = 0 ; i < TRUE_HERM ; i++ ) {
+      free( FFTW.in[i] ) ;
+    }
+    free( FFTW.in ) ;
+    return GLU_FAILURE ;
   }
   // these are dummy arrays
   FFTW.out = NULL ;
@@ -93,6 +112,8 @@ Coulomb( struct site *__restrict lat ,
 
 #endif
 
+  if( iters == (size_t)GLU_FAILURE ) { return GLU_FAILURE ; }
+
   // turn this off and the code works with OBC!
   latt_reunitU( lat ) ;
 
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 41d0c2c..a5b6003 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -355,30 +355,36 @@ FACG( struct site *lat ,
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[FACG] allocation of temporaries failed\n" ) ;
+    iters = (size_t)GLU_FAILURE ;
     goto end ;
   }
 
 #pragma omp parallel
   {
-    size_t loc_iters = 1 ;
+    size_t loc_iters = 1 , tot_iters = 0 , ncont = 0 ;
   top :
     loc_iters = steep_Landau_FACG( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
+    tot_iters += loc_iters ;
 
     #pragma omp master
     {
-      iters = loc_iters ;
+      iters = tot_iters ;
     }
     
-    if( loc_iters >= max_iters ) {
-      if( ( *th < 1E3*acc ) ) {
+    if( ( loc_iters >= max_iters ) && !( *th <= acc ) ) {
+      if( ( *th < 1E3*acc ) && ncont < GF_MAX_CONTINUATIONS ) {
+	ncont++ ;
 	#pragma omp master
 	{
 	  fprintf( stdout , "[GF] Continuation run \n" ) ;
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	#pragma omp master
+	{
+	  iters = 123456789 ;
+	}
       }
     }
   }
@@ -409,33 +415,38 @@ FASD( struct site *lat ,
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_FALSE ) == GLU_FAILURE ) {
     fprintf( stderr , "[FACG] allocation of temporaries failed\n" ) ;
+    iters = (size_t)GLU_FAILURE ;
     goto end ;
   }
 
 #pragma omp parallel
   {
-    size_t loc_iters = 1 ;    
+    size_t loc_iters = 1 , tot_iters = 0 , ncont = 0 ;
   top :
     loc_iters = steep_Landau_FASD( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
-    
-    if( loc_iters >= max_iters ) {
-      if( ( *th < 1E3*acc ) ) {
-	loc_iters = 0 ;
+    tot_iters += loc_iters ;
+
+    #pragma omp master
+    {
+      iters = tot_iters ;
+    }
+
+    if( ( loc_iters >= max_iters ) && !( *th <= acc ) ) {
+      if( ( *th < 1E3*acc ) && ncont < GF_MAX_CONTINUATIONS ) {
+	ncont++ ;
 	#pragma omp master
 	{
-	  iters += loc_iters ;
 	  fprintf( stdout , "[GF] Continuation run \n" ) ;
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	#pragma omp master
+	{
+	  iters = 123456789 ;
+	}
       }
     }
-#pragma omp master
-    {
-      iters += loc_iters ;
-    }
   }
 
  end :
diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 53580b0..c3a34ab 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -244,10 +244,15 @@ grab_file( struct site *lat ,
 {
   struct head_data HEAD_DATA ;
   FILE *config = fopen( infile , "rb" ) ;
+  if( config == NULL ) {
+    fprintf( stderr , "[IO] cannot open %s again\n" , infile ) ;
+    return GLU_FAILURE ;
+  }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
       get_config_SUNC( config , lat , HEAD_DATA , infile ) == GLU_FAILURE ) {
-    printf( "[IO] binary file read error \n" ) ;
+    fprintf( stderr , "[IO] binary file read error \n" ) ;
+    fclose( config ) ;
     return GLU_FAILURE ;
   } 
   random_transform( lat , gauge ) ; 
@@ -272,9 +277,12 @@ Landau( struct site *lat ,
 #ifdef HAVE_FFTW3_H
 
   /////////////// Look for Wisdom //////////////
-  create_plans_DFT( &FFTW , Latt.dims , TRUE_HERM , ND ) ;
-
-  FFTW.psq = malloc( LVOLUME * sizeof( GLU_real ) ) ; 
+  if( create_plans_DFT( &FFTW , Latt.dims , TRUE_HERM , ND ) == GLU_FAILURE ||
+      ( FFTW.psq = malloc( LVOLUME * sizeof( GLU_real ) ) ) == NULL ) {
+    fprintf( stderr , "[GF] Landau failed to allocate its temporaries\n" ) ;
+    clean_up_fftw( FFTW , TRUE_HERM ) ;
+    return GLU_FAILURE ;
+  }
   #pragma omp parallel
   {
     #pragma omp for private(i)
@@ -285,10 +293,25 @@ Landau( struct site *lat ,
   
   ///////// End of the search for Wisdom //////
 #else 
-  FFTW.in = malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ; 
+  if( ( FFTW.in = malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ) == NULL ) {
+    fprintf( stderr , "[GF] Landau failed to allocate its temporaries\n" ) ;
+    return GLU_FAILURE ;
+  }
+  int alloc_flag = GLU_SUCCESS ;
   #pragma omp parallel for private(i)
   for(  i = 0 ; i < TRUE_HERM ; i++  ) {
-    GLU_malloc( (void**)&FFTW.in[i] , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) ;
+    if( GLU_malloc( (void**)&FFTW.in[i] , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) != 0 ) {
+      #pragma omp atomic write
+      alloc_flag = GLU_FAILURE ;
+    }
+  }
+  if( alloc_flag == GLU_FAILURE ) {
+    fprintf( stderr , "[GF] Landau failed to allocate its temporaries\n" ) ;
+    for( i = 0 ; i < TRUE_HERM ; i++ ) {
+      free( FFTW.in[i] ) ;
+    }
+    free( FFTW.in ) ;
+    return GLU_FAILURE ;
   }
   // these are really dummy variables that don't get used in the SD
   FFTW.out = NULL ; FFTW.psq = NULL ;
@@ -301,35 +324,52 @@ Landau( struct site *lat ,
   size_t iters = FA_callback( lat , &FFTW , &theta , accuracy , max_iter ) ;
 
   // random restart portion of the code
-  size_t failure = 0 ; 
+  size_t failure = 0 ;
+  int FLAG = ( iters == (size_t)GLU_FAILURE ) ? GLU_FAILURE : GLU_SUCCESS ;
   if( ( iters == 123456789 ) ) {
 
     // allocate new gauge field
     if( GLU_malloc( (void**)&gauge , 16 , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
       fprintf( stderr , "[GF] GF_wrap_landau failed to allocate "
 	       "temporary gauge\n" ) ;
-      return GLU_FAILURE ;
+      FLAG = GLU_FAILURE ;
+      goto MemFree ;
     }
 #pragma omp parallel for private(i)
     for( i = 0 ; i < LVOLUME ; i++ ) {
-      gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
-      identity( gauge[i] ) ;
+      gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ;
+      if( gauge[i] == NULL ) {
+        #pragma omp atomic write
+	FLAG = GLU_FAILURE ;
+      } else {
+	identity( gauge[i] ) ;
+      }
+    }
+    if( FLAG == GLU_FAILURE ) {
+      fprintf( stderr , "[GF] GF_wrap_landau failed to allocate "
+	       "temporary gauge\n" ) ;
+      goto MemFree ;
     }
 
     print_failure_info( failure , max_iter , theta ) ;
-    
+
+    iters = max_iter ;
     size_t iters_loc = 0 ;
     for( failure = 1 ; failure < GF_GLU_FAILURES ; failure++ ) {
       //repeat procedure have to read in the file :( 
       if( grab_file( lat , gauge , infile ) == GLU_FAILURE ) { 
-	printf( "[IO] Something funky happened when trying to read in config again!\n" ) ;
+	fprintf( stderr , "[IO] Something funky happened when trying to read in config again!\n" ) ;
+	FLAG = GLU_FAILURE ;
 	goto MemFree ; 
       }
       // and the callback
       iters_loc = FA_callback( lat , &FFTW , &theta , accuracy , max_iter ) ;
 
       // if we succeed we break the loop
-      if( iters_loc != 123456789 ) {
+      if( iters_loc == (size_t)GLU_FAILURE ) {
+	FLAG = GLU_FAILURE ;
+	break ;
+      } else if( iters_loc != 123456789 ) {
 	iters += iters_loc ; 
 	break ;
       } else {// print information about the last failure
@@ -362,8 +402,11 @@ Landau( struct site *lat ,
   free( FFTW.in ) ; 
 #endif
 
+  if( FLAG == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   if( failure == GF_GLU_FAILURES ) {
-    printf( "\n[GF] Failure to converge to a sufficient solution \n" 
+    fprintf( stderr , "\n[GF] Failure to converge to a sufficient solution \n" 
 	    "[GF] Please lower the GF_TUNE parameter from %g \n" , Latt.gf_alpha ) ;
     return GLU_FAILURE ;
   } else {
diff --git a/src/Gfix/MAG.c b/src/Gfix/MAG.c
index 031c2e5..32e32bb 100755
--- a/src/Gfix/MAG.c
+++ b/src/Gfix/MAG.c
@@ -61,7 +61,7 @@ MAG_fix( struct site *lat )
 {
   // allocate gauge field
   GLU_complex **gauge = NULL ;
-  size_t i ;
+  size_t i , subvol = 1 , mu ;
   int flag = GLU_SUCCESS ;
   
   // allocate new gauge field
@@ -72,12 +72,20 @@ MAG_fix( struct site *lat )
   }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
-    identity( gauge[i] ) ;
+    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ;
+    if( gauge[i] == NULL ) {
+      #pragma omp atomic write
+      flag = GLU_FAILURE ;
+    } else {
+      identity( gauge[i] ) ;
+    }
+  }
+  if( flag == GLU_FAILURE ) {
+    fprintf( stderr , "[GF] MAG failed to allocate temporary gauge\n" ) ;
+    goto end ;
   }
 
   // set the gauge transformation matrices
-  size_t subvol = 1 , mu ;
   for( mu = 0 ; mu < ND ; mu ++ ) {
     #pragma omp parallel for private(i)
     for( i =  0 ; i < subvol ; i++ ) {
@@ -108,7 +116,7 @@ axial_gauge( struct site *lat ,
 {
   latt_reunitU( lat ) ; 
   
-  GLU_complex **gauge ;
+  GLU_complex **gauge = NULL ;
   size_t i , subvolume = 1 ;
   int flag = GLU_SUCCESS ;
   
@@ -120,8 +128,17 @@ axial_gauge( struct site *lat ,
   }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
-    identity( gauge[i] ) ;
+    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ;
+    if( gauge[i] == NULL ) {
+      #pragma omp atomic write
+      flag = GLU_FAILURE ;
+    } else {
+      identity( gauge[i] ) ;
+    }
+  }
+  if( flag == GLU_FAILURE ) {
+    fprintf( stderr , "[GF] Axial failed to allocate temporary gauge\n" ) ;
+    goto end ;
   }
   
   for( i =  0 ; i < ND ; i++ ) {
@@ -179,6 +196,7 @@ residual_fix( struct site *lat )
     flag = GLU_FAILURE ;
     goto end ;
   }
+  for( i = 0 ; i < Latt.dims[ND-1] ; i++ ) { gauge[i] = NULL ; }
 
   for( i = 0 ; i < Latt.dims[ND-1] ; i++ ) {
     if( GLU_malloc( (void**)&gauge[i] , 16 , NCNC * sizeof( GLU_complex ) ) != 0 ) {
diff --git a/src/Gfix/Or.c b/src/Gfix/Or.c
index 510e39d..8ea5034 100755
--- a/src/Gfix/Or.c
+++ b/src/Gfix/Or.c
@@ -188,7 +188,11 @@ OrLandau( struct site *__restrict lat ,
 
   // initialise the draughtboard
   struct draughtboard db ;
-  init_cb( &db , LVOLUME , ND ) ;
+  if( init_cb( &db , LVOLUME , ND ) == GLU_FAILURE ) {
+    fprintf( stderr , "[OR] failed to initialise the draughtboard\n" ) ;
+    free_cb( &db ) ;
+    return (size_t)GLU_FAILURE ;
+  }
 
   fprintf( stdout , "[GF] Over-Relaxation parameter %f \n" , OrParam ) ;
 
@@ -270,7 +274,11 @@ OrCoulomb( struct site *__restrict lat ,
 {
   // initialise the draughtboarding
   struct draughtboard db ;
-  init_cb( &db , LCU , ND-1 ) ;
+  if( init_cb( &db , LCU , ND-1 ) == GLU_FAILURE ) {
+    fprintf( stderr , "[OR] failed to initialise the draughtboard\n" ) ;
+    free_cb( &db ) ;
+    return (size_t)GLU_FAILURE ;
+  }
 
   fprintf( stdout , "[GF] Over-Relaxation parameter %f \n\n" , OrParam ) ;
 
diff --git a/src/Headers/GLU_definitions.h b/src/Headers/GLU_definitions.h
index 9317445..450c8e6 100755
--- a/src/Headers/GLU_definitions.h
+++ b/src/Headers/GLU_definitions.h
@@ -401,6 +401,12 @@ Defines for the gauge fixing routines ( Landau/{}.c )
   #define GF_GLU_FAILURES 7
 #endif
 
+/**
+   @def GF_MAX_CONTINUATIONS
+   @brief number of times a nearly-converged gauge fixing is continued before it counts as a failure
+ */
+#define GF_MAX_CONTINUATIONS 20
+
 /**
    @def MAX_LANDAU
    @brief \f$ p^2 \f$ max in our FA code
-- 
2.43.0


From 7e2feced9bfa3b2a07d3bd7f0aa068f00dd40a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 08/51] fix: race in the maximum of the gauge-fixing theta
 tests

---
 src/Gfix/gftests.c | 54 +++++++---------------------------------------
 1 file changed, 8 insertions(+), 46 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..67e3376 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -25,11 +25,6 @@
 #include "lin_derivs.h" // Hermitian approximation derivatives
 #include "log_derivs.h" // Logarithmic field definition derivatives
 
-// the one with the openmp locks, just an excuse to try this out to be honest
-#if ( defined HAVE_OMP_H ) && ( defined _OPENMP )
-   #define GLU_OMP_MEAS
-   #include <omp.h>
-#endif
 
 // look at constant-ness of our gauge fields in all directions
 void
@@ -217,13 +212,9 @@ theta_test_lin( const struct site *__restrict lat ,
 		const size_t MAX_DIR ) 
 {
   double tr = 0. ; 
+  GLU_real lmax = 0. ;
   size_t i ; 
-  *max = 0. ;
-  #ifdef GLU_OMP_MEAS
-  omp_lock_t writelock ;
-  omp_init_lock( &writelock ) ;
-  #endif
-#pragma omp parallel for private(i) reduction(+:tr)
+#pragma omp parallel for private(i) reduction(+:tr) reduction(max:lmax)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
@@ -233,19 +224,9 @@ theta_test_lin( const struct site *__restrict lat ,
     register double res = latt_deriv_AntiHermitian_proj( temp , lat , 
 							 i , MAX_DIR ) ; 
     tr = tr + (double)res ; 
-    #ifdef GLU_OMP_MEAS
-    if( res > *max ) { 
-      omp_set_lock( &writelock ) ;
-      *max = res ;
-      omp_unset_lock( &writelock ) ;
-    } 
-    #else
-    if( res > *max ) { *max = res ; } 
-    #endif
+    if( res > lmax ) { lmax = res ; }
   }
-  #ifdef GLU_OMP_MEAS
-  omp_destroy_lock( &writelock ) ;
-  #endif
+  *max = lmax ;
   return 2. * tr / (double)( NC * LVOLUME ) ;
 }
 
@@ -256,13 +237,9 @@ theta_test_log( const struct site *__restrict lat ,
 		const size_t MAX_DIR )
 {
   double tr = 0. ; 
+  GLU_real lmax = 0. ;
   size_t i ; 
-  *max = 0. ; 
-  #ifdef GLU_OMP_MEAS
-  omp_lock_t writelock ;
-  omp_init_lock( &writelock ) ;
-  #endif
-  #pragma omp parallel for private(i) reduction(+:tr) 
+  #pragma omp parallel for private(i) reduction(+:tr) reduction(max:lmax)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex temp[ HERMSIZE ] ; 
     size_t mu ;
@@ -273,23 +250,8 @@ theta_test_log( const struct site *__restrict lat ,
     register const double res = log_deriv( temp , &functional , lat ,
 					   i , MAX_DIR ) ; 
     tr = tr + (double)res ; 
-    #ifdef GLU_OMP_MEAS
-    if( res > *max ) { 
-      omp_set_lock( &writelock ) ;
-      *max = res ;
-      omp_unset_lock( &writelock ) ;
-    } 
-    #else
-    if( res > *max ) { *max = res ; } 
-    #endif
+    if( res > lmax ) { lmax = res ; }
   }
-  #ifdef GLU_OMP_MEAS
-  omp_destroy_lock( &writelock ) ;
-  #endif
+  *max = lmax ;
   return 2. * tr / ( NC * LVOLUME ) ; 
 }
-
-// and clean it up
-#ifdef GLU_OMP_MEAS
-  #undef GLU_OMP_MEAS
-#endif
-- 
2.43.0


From 5780780f4fde188f272c3845f120ccfc3655997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 09/51] fix: race on mu in the spatial correlator

---
 src/Cuts/config_gluons.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index bc9eb0c..5fd3910 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -145,8 +145,9 @@ spatial_correlator( struct site *__restrict A ,
     #else
     FFTW.in[i] = 0 ;
     #endif
-    for( mu = 0 ; mu < ND ; mu++ ) {
-      trace_ab_dag( &tr , A[i].O[mu] , A[i].O[mu] ) ;
+    size_t nu ;
+    for( nu = 0 ; nu < ND ; nu++ ) {
+      trace_ab_dag( &tr , A[i].O[nu] , A[i].O[nu] ) ;
       sum += tr ; 
     }
     #ifdef CUT_FORWARD
@@ -165,7 +166,7 @@ spatial_correlator( struct site *__restrict A ,
 
   // compute the sum
   size_t t ;
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(t,i)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
     #ifdef CUT_FORWARD
     GLU_complex *p = FFTW.in + LCU * t ;
-- 
2.43.0


From 1b8254239250aac7bed4c06882599575bf693a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 10/51] fix: GLU_malloc returns NULL on failure, free_lat is
 NULL-safe

---
 src/Utils/GLU_malloc.c | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/Utils/GLU_malloc.c b/src/Utils/GLU_malloc.c
index 53acd8d..9045dec 100644
--- a/src/Utils/GLU_malloc.c
+++ b/src/Utils/GLU_malloc.c
@@ -37,6 +37,8 @@ GLU_malloc( void **memptr ,
 	    const size_t size )
 {
 #if (defined HAVE_IMMINTRIN_H)
+  // posix_memalign leaves the pointer alone if it fails
+  *memptr = NULL ;
   return posix_memalign( memptr , alignment , size ) ;
 #else
   *memptr = malloc( size ) ;
@@ -56,16 +58,22 @@ allocate_lat( void )
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     if( GLU_malloc( (void**)&lat[i].O , ALIGNMENT , ND * sizeof( GLU_complex* ) ) != 0 ) {
+      #pragma omp atomic write
       flag = 1 ;
+      continue ;
     }
     size_t mu ;
     for( mu = 0 ; mu < ND ; mu++ ) {
       if( GLU_malloc( (void**)&lat[i].O[mu] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+        #pragma omp atomic write
 	flag = 1 ;
       }
     }
   }
-  if( flag == 1 ) return NULL ;
+  if( flag == 1 ) {
+    free_lat( lat ) ;
+    return NULL ;
+  }
   init_navig( lat ) ;
   return lat ;
 }
@@ -75,21 +83,18 @@ void
 free_lat( struct site *lat )
 {
   size_t i ;
+  if( lat == NULL ) { return ; }
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     size_t mu ;
-    for( mu = 0 ; mu < ND ; mu++ ) {
-      if( lat[i].O[mu] != NULL ) {
+    if( lat[i].O != NULL ) {
+      for( mu = 0 ; mu < ND ; mu++ ) {
 	free( lat[i].O[mu] ) ;
       }
-    }
-    if( lat[i].O != NULL ) {
       free( lat[i].O ) ;
     }
   }
-  if( lat != NULL ) {
-    free( lat ) ;
-  }
+  free( lat ) ;
   return ;
 }
 
@@ -107,17 +112,23 @@ allocate_s_site( const size_t LENGTH1 ,
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LENGTH1 ; i++ ) {
     if( GLU_malloc( (void**)&lat[i].O , ALIGNMENT , LENGTH2 * sizeof( GLU_complex* ) ) != 0 ) {
+      #pragma omp atomic write
       flag = 1 ;
+      continue ;
     }
     //
     size_t mu ;
     for( mu = 0 ; mu < LENGTH2 ; mu++ ) {
       if( GLU_malloc( (void**)&lat[i].O[mu] , ALIGNMENT , LENGTH3 * sizeof( GLU_complex ) ) != 0 ) {
+        #pragma omp atomic write
 	flag = 1 ;
       }
     }
   }
-  if( flag == 1 ) return NULL ;
+  if( flag == 1 ) {
+    free_s_site( lat , LENGTH1 , LENGTH2 ) ;
+    return NULL ;
+  }
   return lat ;
 }
 
@@ -127,22 +138,18 @@ free_s_site( struct s_site *lat ,
 	     const size_t LENGTH1 ,
 	     const size_t LENGTH2 )
 {
-
   size_t i ;
+  if( lat == NULL ) { return ; }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LENGTH1 ; i++ ) {
     size_t mu ;
-    for( mu = 0 ; mu < LENGTH2 ; mu++ ) {
-      if( lat[i].O[mu] != NULL ) {
+    if( lat[i].O != NULL ) {
+      for( mu = 0 ; mu < LENGTH2 ; mu++ ) {
 	free( lat[i].O[mu] ) ;
       }
-    }
-    if( lat[i].O != NULL ) {
       free( lat[i].O ) ;
     }
   }
-  if( lat != NULL ) {
-    free( lat ) ;
-  }
+  free( lat ) ;
   return ;
 }
-- 
2.43.0


From bfb31f65bc2ce5469eae621d5edc7923f6b23b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 11/51] fix: RNG state tables: check reads, writes and
 allocations, KISS byte order

---
 src/Headers/par_MWC_1038.h |  8 ++--
 src/Headers/par_MWC_4096.h |  8 ++--
 src/Headers/par_WELL_512.h |  8 ++--
 src/Headers/par_XOR_1024.h |  8 ++--
 src/Headers/par_rng.h      |  6 +--
 src/Utils/par_KISS.c       | 56 +++++++++++++++++++++++-----
 src/Utils/par_MWC_1038.c   | 76 ++++++++++++++++++++++++++------------
 src/Utils/par_MWC_4096.c   | 76 +++++++++++++++++++++++++-------------
 src/Utils/par_WELL_512.c   | 63 +++++++++++++++++++++++--------
 src/Utils/par_XOR_1024.c   | 66 +++++++++++++++++++++++++--------
 src/Utils/par_rng.c        | 75 +++++++++++++++++++++++++++++--------
 11 files changed, 327 insertions(+), 123 deletions(-)

diff --git a/src/Headers/par_MWC_1038.h b/src/Headers/par_MWC_1038.h
index c1edbd3..3cb6c4d 100755
--- a/src/Headers/par_MWC_1038.h
+++ b/src/Headers/par_MWC_1038.h
@@ -31,11 +31,11 @@ void
 free_par_MWC_1038( void ) ;
 
 /**
-   @fn void GLU_set_par_MWC_1038_table( const uint32_t seed[ Latt.Nthreads ] )
+   @fn int GLU_set_par_MWC_1038_table( const uint32_t seed[ Latt.Nthreads ] )
    @brief set the parallel table
    @param seed :: seeds for the RNG
  */
-void
+int
 GLU_set_par_MWC_1038_table( const uint32_t seed[ Latt.Nthreads ] ) ;
 
 /**
@@ -56,11 +56,11 @@ int
 read_par_MWC_1038_table( FILE *rng_file ) ;
 
 /**
-   @fn void write_par_MWC_1038_table( FILE *rng_file )
+   @fn int write_par_MWC_1038_table( FILE *rng_file )
    @brief write the WELL RNG table to rng_file
    @param rng_file :: file to write out the table
  */
-void
+int
 write_par_MWC_1038_table( FILE *rng_file ) ;
 
 #endif
diff --git a/src/Headers/par_MWC_4096.h b/src/Headers/par_MWC_4096.h
index 07ac3c2..d4757a5 100755
--- a/src/Headers/par_MWC_4096.h
+++ b/src/Headers/par_MWC_4096.h
@@ -31,11 +31,11 @@ void
 free_par_MWC_4096( void ) ;
 
 /**
-   @fn void GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] )
+   @fn int GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] )
    @brief set the parallel table
    @param seed :: seeds for the RNG
  */
-void
+int
 GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] ) ;
 
 /**
@@ -56,11 +56,11 @@ int
 read_par_MWC_4096_table( FILE *rng_file ) ;
 
 /**
-   @fn void write_par_MWC_4096_table( FILE *rng_file )
+   @fn int write_par_MWC_4096_table( FILE *rng_file )
    @brief write the WELL RNG table to rng_file
    @param rng_file :: file to write out the table
  */
-void
+int
 write_par_MWC_4096_table( FILE *rng_file ) ;
 
 #endif
diff --git a/src/Headers/par_WELL_512.h b/src/Headers/par_WELL_512.h
index 7a6bd6f..45214b9 100755
--- a/src/Headers/par_WELL_512.h
+++ b/src/Headers/par_WELL_512.h
@@ -31,11 +31,11 @@ void
 free_par_WELL_512( void ) ;
 
 /**
-   @fn void GLU_set_par_WELL_512_table( const uint32_t seed[ Latt.Nthreads ] ) 
+   @fn int GLU_set_par_WELL_512_table( const uint32_t seed[ Latt.Nthreads ] ) 
    @brief set the parallel table
    @param seed :: seeds for the RNG
  */
-void
+int
 GLU_set_par_WELL_512_table( const uint32_t seed[ Latt.Nthreads ] ) ;
 
 /**
@@ -56,11 +56,11 @@ int
 read_par_WELL_512_table( FILE *rng_file ) ;
 
 /**
-   @fn void write_par_WELL_512_table( FILE *rng_file )
+   @fn int write_par_WELL_512_table( FILE *rng_file )
    @brief write the WELL RNG table to rng_file
    @param rng_file :: file to write out the table
  */
-void
+int
 write_par_WELL_512_table( FILE *rng_file ) ;
 
 #endif
diff --git a/src/Headers/par_XOR_1024.h b/src/Headers/par_XOR_1024.h
index a3ae0b7..28006be 100755
--- a/src/Headers/par_XOR_1024.h
+++ b/src/Headers/par_XOR_1024.h
@@ -31,11 +31,11 @@ void
 free_par_XOR_1024( void ) ;
 
 /**
-   @fn void GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] )
+   @fn int GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] )
    @brief set the parallel table
    @param seed :: seeds for the RNG
  */
-void
+int
 GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] ) ;
 
 /**
@@ -56,11 +56,11 @@ int
 read_par_XOR_1024_table( FILE *rng_file ) ;
 
 /**
-   @fn void write_par_XOR_1024_table( FILE *rng_file )
+   @fn int write_par_XOR_1024_table( FILE *rng_file )
    @brief write the WELL RNG table to rng_file
    @param rng_file :: file to write out the table
  */
-void
+int
 write_par_XOR_1024_table( FILE *rng_file ) ;
 
 #endif
diff --git a/src/Headers/par_rng.h b/src/Headers/par_rng.h
index 5d22747..9f70996 100755
--- a/src/Headers/par_rng.h
+++ b/src/Headers/par_rng.h
@@ -95,11 +95,11 @@ int
 read_par_rng_state( const char *infile ) ;
 
 /**
-   @fn int read_par_rng_state( const char *outfile )
-   @brief read the rng table to outfile
+   @fn int write_par_rng_state( const char *outfile )
+   @brief write the rng table to outfile
    @param outfile :: file to be written
 */
-void
+int
 write_par_rng_state( const char *outfile ) ;
 
 #endif
diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 6f97899..237cf87 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -47,25 +47,51 @@ void
 free_par_KISS( void )
 {
   size_t i ;
+  if( table != NULL ) {
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      free( table[i] ) ;
+    }
+  }
+  free( table ) ; table = NULL ;
+  return ;
+}
+
+// allocate the tables
+static int
+allocate_table( void )
+{
+  size_t i ;
+  table = calloc( Latt.Nthreads , sizeof( uint32_t* ) ) ;
+  if( table == NULL ) {
+    goto fail ;
+  }
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    free( table[i] ) ;
+    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    if( table[i] == NULL ) {
+      goto fail ;
+    }
   }
-  free( table ) ;
+  return GLU_SUCCESS ;
+ fail :
+  fprintf( stderr , "[PAR_RNG] table allocation failure\n" ) ;
+  free_par_KISS( ) ;
+  return GLU_FAILURE ;
 }
 
-void
+int
 GLU_set_par_KISS_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < RNG_TABLE ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
     }
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // generates a random double number
@@ -95,15 +121,22 @@ par_KISS_dbl( const uint32_t thread )
 int
 read_par_KISS_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+      free_par_KISS( ) ;
       return GLU_FAILURE ;
     }
   }
+  if( !WORDS_BIGENDIAN ) { 
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      bswap_32( RNG_TABLE , table[i] ) ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
@@ -112,6 +145,7 @@ int
 write_par_KISS_table( FILE *rng_file )
 {
   // write out big endian binary data
+  int FLAG = GLU_SUCCESS ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
     // put into big endian
@@ -119,11 +153,13 @@ write_par_KISS_table( FILE *rng_file )
       bswap_32( RNG_TABLE , table[i] ) ; 
     }
     // write the table
-    fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) ;
+    if( fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
+      FLAG = GLU_FAILURE ;
+    }
     // reswap
     if( !WORDS_BIGENDIAN ) { 
       bswap_32( RNG_TABLE , table[i] ) ; 
     }
   }
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Utils/par_MWC_1038.c b/src/Utils/par_MWC_1038.c
index 9bddb7d..30627ce 100644
--- a/src/Utils/par_MWC_1038.c
+++ b/src/Utils/par_MWC_1038.c
@@ -47,29 +47,50 @@ void
 free_par_MWC_1038( void )
 {
   size_t i ;
-  for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    free( table[i] ) ;
+  if( table != NULL ) {
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      free( table[i] ) ;
+    }
   }
-  free( table ) ;
-  if( mcwc_i != NULL ) {
-    free( mcwc_i ) ;
+  free( table ) ; table = NULL ;
+  free( mcwc_i ) ; mcwc_i = NULL ;
+  free( carry ) ; carry = NULL ;
+  return ;
+}
+
+// allocate the tables
+static int
+allocate_table( void )
+{
+  size_t i ;
+  table = calloc( Latt.Nthreads , sizeof( uint32_t* ) ) ;
+  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  carry = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( table == NULL || mcwc_i == NULL || carry == NULL ) {
+    goto fail ;
   }
-  if( carry != NULL ) {
-    free( carry ) ;
+  for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    if( table[i] == NULL ) {
+      goto fail ;
+    }
   }
-  return ;
+  return GLU_SUCCESS ;
+ fail :
+  fprintf( stderr , "[PAR_RNG] table allocation failure\n" ) ;
+  free_par_MWC_1038( ) ;
+  return GLU_FAILURE ;
 }
 
 // set the allocated table
-void
+int
 GLU_set_par_MWC_1038_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < RNG_TABLE ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -78,7 +99,7 @@ GLU_set_par_MWC_1038_table( const uint32_t seed[ Latt.Nthreads ] )
     carry[i]  = table[i][RNG_TABLE-1] % 61137367UL ;
     mcwc_i[i] = RNG_TABLE-1 ;
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // generate a double between [ 0 , 1 )
@@ -108,23 +129,25 @@ par_MWC_1038_dbl( const uint32_t thread )
 int
 read_par_MWC_1038_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+      free_par_MWC_1038( ) ;
       return GLU_FAILURE ;
     }
   }
   if( fread( mcwc_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+    free_par_MWC_1038( ) ;
     return GLU_FAILURE ;
   }
   if( fread( carry , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+    free_par_MWC_1038( ) ;
     return GLU_FAILURE ;
   }
   // swap them if we aren't big endian
@@ -139,10 +162,11 @@ read_par_MWC_1038_table( FILE *rng_file )
 }
 
 // write the table and periferies
-void
+int
 write_par_MWC_1038_table( FILE *rng_file )
 {
   // write out big endian binary data
+  int FLAG = GLU_SUCCESS ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
     // put into big endian
@@ -150,7 +174,9 @@ write_par_MWC_1038_table( FILE *rng_file )
       bswap_32( RNG_TABLE , table[i] ) ; 
     }
     // write the table
-    fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) ;
+    if( fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
+      FLAG = GLU_FAILURE ;
+    }
     // reswap
     if( !WORDS_BIGENDIAN ) { 
       bswap_32( RNG_TABLE , table[i] ) ; 
@@ -161,11 +187,15 @@ write_par_MWC_1038_table( FILE *rng_file )
     bswap_32( Latt.Nthreads , mcwc_i ) ;
     bswap_32( Latt.Nthreads , carry ) ; 
   }
-  fwrite( mcwc_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) ;
-  fwrite( carry , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) ;
+  if( fwrite( mcwc_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
+    FLAG = GLU_FAILURE ;
+  }
+  if( fwrite( carry , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
+    FLAG = GLU_FAILURE ;
+  }
   if( !WORDS_BIGENDIAN ) { 
     bswap_32( Latt.Nthreads , mcwc_i ) ;
     bswap_32( Latt.Nthreads , carry ) ; 
   }
-  return ;
+  return FLAG ;
 }
diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index ae207fc..aae7c8b 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -50,33 +50,50 @@ void
 free_par_MWC_4096( void )
 {
   size_t i ;
-  for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    if( table[i] != NULL ) {
+  if( table != NULL ) {
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
       free( table[i] ) ;
     }
   }
-  if( mcwc_i != NULL ) {
-    free( mcwc_i ) ;
-  }
-  if( carry != NULL ) {
-    free( carry ) ;
+  free( table ) ; table = NULL ;
+  free( mcwc_i ) ; mcwc_i = NULL ;
+  free( carry ) ; carry = NULL ;
+  return ;
+}
+
+// allocate the tables
+static int
+allocate_table( void )
+{
+  size_t i ;
+  table = calloc( Latt.Nthreads , sizeof( uint32_t* ) ) ;
+  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  carry = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( table == NULL || mcwc_i == NULL || carry == NULL ) {
+    goto fail ;
   }
-  if( table != NULL ) {
-    free( table ) ;
+  for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    if( table[i] == NULL ) {
+      goto fail ;
+    }
   }
-  return ;
+  return GLU_SUCCESS ;
+ fail :
+  fprintf( stderr , "[PAR_RNG] table allocation failure\n" ) ;
+  free_par_MWC_4096( ) ;
+  return GLU_FAILURE ;
 }
 
 // set the allocated table
-void
+int
 GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table = malloc( RNG_TABLE * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < 4096 ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -85,7 +102,7 @@ GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] )
     carry[i]  = table[i][RNG_TABLE-1] % 809430660UL ;
     mcwc_i[i] = RNG_TABLE - 1 ;
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // generate a double between [ 0 , 1 )
@@ -115,23 +132,25 @@ par_MWC_4096_dbl( const uint32_t thread )
 int
 read_par_MWC_4096_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+      free_par_MWC_4096( ) ;
       return GLU_FAILURE ;
     }
   }
   if( fread( mcwc_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+    free_par_MWC_4096( ) ;
     return GLU_FAILURE ;
   }
   if( fread( carry , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+    free_par_MWC_4096( ) ;
     return GLU_FAILURE ;
   }
   // swap them if we aren't big endian
@@ -146,10 +165,11 @@ read_par_MWC_4096_table( FILE *rng_file )
 }
 
 // write the table and periferies
-void
+int
 write_par_MWC_4096_table( FILE *rng_file )
 {
   // write out big endian binary data
+  int FLAG = GLU_SUCCESS ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
     // put into big endian
@@ -157,7 +177,9 @@ write_par_MWC_4096_table( FILE *rng_file )
       bswap_32( RNG_TABLE , table[i] ) ; 
     }
     // write the table
-    fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) ;
+    if( fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
+      FLAG = GLU_FAILURE ;
+    }
     // reswap
     if( !WORDS_BIGENDIAN ) { 
       bswap_32( RNG_TABLE , table[i] ) ; 
@@ -168,12 +190,16 @@ write_par_MWC_4096_table( FILE *rng_file )
     bswap_32( Latt.Nthreads , mcwc_i ) ;
     bswap_32( Latt.Nthreads , carry ) ; 
   }
-  fwrite( mcwc_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) ;
-  fwrite( carry , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) ;
+  if( fwrite( mcwc_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
+    FLAG = GLU_FAILURE ;
+  }
+  if( fwrite( carry , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
+    FLAG = GLU_FAILURE ;
+  }
   if( !WORDS_BIGENDIAN ) { 
     bswap_32( Latt.Nthreads , mcwc_i ) ;
     bswap_32( Latt.Nthreads , carry ) ; 
   }
 
-  return ;
+  return FLAG ;
 }
diff --git a/src/Utils/par_WELL_512.c b/src/Utils/par_WELL_512.c
index 4e09458..927d829 100644
--- a/src/Utils/par_WELL_512.c
+++ b/src/Utils/par_WELL_512.c
@@ -52,22 +52,48 @@ void
 free_par_WELL_512( void )
 {
   size_t i ;
+  if( table != NULL ) {
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      free( table[i] ) ;
+    }
+  }
+  free( table ) ; table = NULL ;
+  free( well_i ) ; well_i = NULL ;
+  return ;
+}
+
+// allocate the tables
+static int
+allocate_table( void )
+{
+  size_t i ;
+  table = calloc( Latt.Nthreads , sizeof( uint32_t* ) ) ;
+  well_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( table == NULL || well_i == NULL ) {
+    goto fail ;
+  }
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    free( table[i] ) ;
+    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    if( table[i] == NULL ) {
+      goto fail ;
+    }
   }
-  free( table ) ;
-  free( well_i ) ;
+  return GLU_SUCCESS ;
+ fail :
+  fprintf( stderr , "[PAR_RNG] table allocation failure\n" ) ;
+  free_par_WELL_512( ) ;
+  return GLU_FAILURE ;
 }
 
 // set the table
-void
+int
 GLU_set_par_WELL_512_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  well_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < RNG_TABLE ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -75,7 +101,7 @@ GLU_set_par_WELL_512_table( const uint32_t seed[ Latt.Nthreads ] )
     // initialise the state to the first index
     well_i[i] = 0 ;
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // generate a double between [ 0 , 1 )
@@ -106,18 +132,20 @@ par_WELL_512_dbl( const uint32_t thread )
 int
 read_par_WELL_512_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  well_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+      free_par_WELL_512( ) ;
       return GLU_FAILURE ;
     }
   }
   if( fread( well_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+    free_par_WELL_512( ) ;
     return GLU_FAILURE ;
   }
   // swap them if we aren't big endian
@@ -131,10 +159,11 @@ read_par_WELL_512_table( FILE *rng_file )
 }
 
 // write the table and periferies
-void
+int
 write_par_WELL_512_table( FILE *rng_file )
 {
   // write out big endian binary data
+  int FLAG = GLU_SUCCESS ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
     // put into big endian
@@ -142,7 +171,9 @@ write_par_WELL_512_table( FILE *rng_file )
       bswap_32( RNG_TABLE , table[i] ) ; 
     }
     // write the table
-    fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) ;
+    if( fwrite( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
+      FLAG = GLU_FAILURE ;
+    }
     // reswap
     if( !WORDS_BIGENDIAN ) { 
       bswap_32( RNG_TABLE , table[i] ) ; 
@@ -152,9 +183,11 @@ write_par_WELL_512_table( FILE *rng_file )
   if( !WORDS_BIGENDIAN ) { 
     bswap_32( Latt.Nthreads , well_i ) ;
   }
-  fwrite( well_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) ;
+  if( fwrite( well_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
+    FLAG = GLU_FAILURE ;
+  }
   if( !WORDS_BIGENDIAN ) { 
     bswap_32( Latt.Nthreads , well_i ) ;
   }
-  return ;
+  return FLAG ;
 }
diff --git a/src/Utils/par_XOR_1024.c b/src/Utils/par_XOR_1024.c
index 8b107b5..9813491 100644
--- a/src/Utils/par_XOR_1024.c
+++ b/src/Utils/par_XOR_1024.c
@@ -23,6 +23,7 @@
 #include "Mainfile.h"
 
 #include "GLU_bswap.h" // bswap64
+#include "par_XOR_1024.h" // alphabetising
 
 static uint64_t **table ; // random number table
 static uint32_t *xor_i ;  // xor 1024 index
@@ -43,15 +44,38 @@ par_XOR_1024( const uint32_t thread )
   return ( table[ thread ][ xor_i[ thread ] ] = s0 ^ s1 ) * 1181783497276652981LL ;
 }
 
-void
-GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] )
+// allocate the tables
+static int
+allocate_table( void )
 {
-  table = malloc( Latt.Nthreads * sizeof( uint64_t* ) ) ;
+  size_t i ;
+  table = calloc( Latt.Nthreads , sizeof( uint64_t* ) ) ;
   xor_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( table == NULL || xor_i == NULL ) {
+    goto fail ;
+  }
+  for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+    table[i] = malloc( RNG_TABLE * sizeof( uint64_t ) ) ;
+    if( table[i] == NULL ) {
+      goto fail ;
+    }
+  }
+  return GLU_SUCCESS ;
+ fail :
+  fprintf( stderr , "[PAR_RNG] table allocation failure\n" ) ;
+  free_par_XOR_1024( ) ;
+  return GLU_FAILURE ;
+}
+
+int
+GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] )
+{
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
 
-    table[i] = malloc( RNG_TABLE * sizeof( uint64_t ) ) ;
 
     // type-pun the 64-bit table
     union {
@@ -72,18 +96,21 @@ GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] )
 
     xor_i[ i ] = RNG_TABLE - 1 ; // set p
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 void
 free_par_XOR_1024( void )
 {
   size_t i ;
-  for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    free( table[i] ) ;
+  if( table != NULL ) {
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      free( table[i] ) ;
+    }
   }
-  free( table ) ;
-  free( xor_i ) ;
+  free( table ) ; table = NULL ;
+  free( xor_i ) ; xor_i = NULL ;
+  return ;
 }
 
 double
@@ -96,18 +123,20 @@ par_XOR_1024_dbl( const uint32_t thread )
 int
 read_par_XOR_1024_table( FILE *rng_file )
 {
-  table = malloc( Latt.Nthreads * sizeof( uint64_t* ) ) ;
-  xor_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  if( allocate_table( ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint64_t ) ) ;
     if( fread( table[i] , sizeof( uint64_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+      free_par_XOR_1024( ) ;
       return GLU_FAILURE ;
     }
   }
   if( fread( xor_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
+    free_par_XOR_1024( ) ;
     return GLU_FAILURE ;
   }
   // swap them if we aren't big endian
@@ -121,10 +150,11 @@ read_par_XOR_1024_table( FILE *rng_file )
 }
 
 // write the table and periferies
-void
+int
 write_par_XOR_1024_table( FILE *rng_file )
 {
   // write out big endian binary data
+  int FLAG = GLU_SUCCESS ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
     // put into big endian
@@ -132,7 +162,9 @@ write_par_XOR_1024_table( FILE *rng_file )
       bswap_64( RNG_TABLE , table[i] ) ; 
     }
     // write the table
-    fwrite( table[i] , sizeof( uint64_t ) , RNG_TABLE , rng_file ) ;
+    if( fwrite( table[i] , sizeof( uint64_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
+      FLAG = GLU_FAILURE ;
+    }
     // reswap
     if( !WORDS_BIGENDIAN ) { 
       bswap_64( RNG_TABLE , table[i] ) ; 
@@ -142,9 +174,11 @@ write_par_XOR_1024_table( FILE *rng_file )
   if( !WORDS_BIGENDIAN ) { 
     bswap_32( Latt.Nthreads , xor_i ) ;
   }
-  fwrite( xor_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) ;
+  if( fwrite( xor_i , sizeof( uint32_t ) , Latt.Nthreads , rng_file ) != Latt.Nthreads ) {
+    FLAG = GLU_FAILURE ;
+  }
   if( !WORDS_BIGENDIAN ) { 
     bswap_32( Latt.Nthreads , xor_i ) ;
   }
-  return ;
+  return FLAG ;
 }
diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 6a66874..4ee6446 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -62,6 +62,10 @@ initialise_par_rng( const char *rng_file )
     if( rng_file == NULL ) {
       // pull from the entropy pool?
       uint32_t *Seeds = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+      if( Seeds == NULL ) {
+	fprintf( stderr , "[PAR_RNG] Seed allocation failure\n" ) ;
+	return GLU_FAILURE ;
+      }
 
       size_t i ;
       if( Latt.Seed[0] == 0 ) {
@@ -77,6 +81,7 @@ initialise_par_rng( const char *rng_file )
 	  fprintf( stderr , "[RNG] Entropy pool Seed not read properly ! "
 		   "... Exiting \n" ) ;
 	  free( Seeds ) ;
+	  fclose( urandom ) ;
 	  return GLU_FAILURE ;
 	}
 	for( i = 1 ; i < Latt.Nthreads ; i++ ) {
@@ -95,20 +100,26 @@ initialise_par_rng( const char *rng_file )
       }
       
       // do the seeding
+      int FLAG = GLU_FAILURE ;
       #if (defined KISS_RNG)
-      GLU_set_par_KISS_table( Seeds ) ;
+      FLAG = GLU_set_par_KISS_table( Seeds ) ;
       #elif (defined MWC_4096_RNG)
-      GLU_set_par_MWC_4096_table( Seeds ) ;
+      FLAG = GLU_set_par_MWC_4096_table( Seeds ) ;
       #elif (defined MWC_1038_RNG)
-      GLU_set_par_MWC_1038_table( Seeds ) ;
+      FLAG = GLU_set_par_MWC_1038_table( Seeds ) ;
       #elif (defined XOR_1024_RNG)
-      GLU_set_par_XOR_1024_table( Seeds ) ;
+      FLAG = GLU_set_par_XOR_1024_table( Seeds ) ;
       #elif (defined WELL_512_RNG)
-      GLU_set_par_WELL_512_table( Seeds ) ;
+      FLAG = GLU_set_par_WELL_512_table( Seeds ) ;
       #else
-      GLU_set_par_MWC_4096_table( Seeds ) ;
+      FLAG = GLU_set_par_MWC_4096_table( Seeds ) ;
       #endif
 
+      if( FLAG == GLU_FAILURE ) {
+	free( Seeds ) ;
+	return GLU_FAILURE ;
+      }
+
       // warm up the rng
       #pragma omp parallel for private(i)
       for( i = 0 ; i < Latt.Nthreads ; i++ ) {
@@ -123,7 +134,10 @@ initialise_par_rng( const char *rng_file )
       // free the seeds
       free( Seeds ) ;
     } else {
-      return read_par_rng_state( rng_file ) ;
+      // can start a new sequence, which sets this too
+      if( read_par_rng_state( rng_file ) == GLU_FAILURE ) {
+	return GLU_FAILURE ;
+      }
     }
     RNG_inited = GLU_TRUE ;
   }
@@ -234,6 +248,7 @@ read_par_rng_state( const char *infile )
   
   if( ( hdr = get_header( in ) ) == NULL ) {
     fprintf( stderr , "[PAR_RNG] Unable to read state header\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
@@ -241,66 +256,81 @@ read_par_rng_state( const char *infile )
   size_t Nthreads ;
   if( get_size_t( "NTHREADS" , hdr , &Nthreads ) == GLU_FAILURE ) {
     fprintf( stderr , "[PAR_RNG] NTHREADS not found in header\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( Nthreads != (size_t)Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] RNG Nthreads (%zu) not the same as "
 	     "Latt.Nthreads (%u)\n" , Nthreads , Latt.Nthreads ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
   // figure out what RNG we are using and make sure it is consistent
   if( get_string( "RNG" , hdr , &str ) == GLU_FAILURE ) {
     fprintf( stderr , "[PAR_RNG] RNG type not found" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
 #if (defined KISS_RNG)
   if( strcmp(  " PAR_KISS" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (KISS) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_KISS_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined MWC_4096_RNG)
   if( strcmp(  " PAR_MWC_4096" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_4096) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_MWC_4096_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined XOR_1024_RNG)
   if( strcmp(  " PAR_XOR_1024" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (XOR_1024) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_XOR_1024_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined MWC_1038_RNG)
   if( strcmp(  " PAR_MWC_1038" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_1038) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_MWC_1038_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined WELL_512_RNG)
   if( strcmp(  " PAR_WELL_512" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (WELL_512) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_WELL_512_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #else
   if( strcmp(  " PAR_MWC_4096" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_4096) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_MWC_4096_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #endif
@@ -311,10 +341,16 @@ read_par_rng_state( const char *infile )
 }
 
 // write out the parallel rng
-void
+int
 write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
+  int FLAG = GLU_SUCCESS ;
+
+  if( out == NULL ) {
+    fprintf( stderr , "[PAR_RNG] cannot open %s for writing\n" , outfile ) ;
+    return GLU_FAILURE ;
+  }
 
   // write out in a NERSC-like header so I can reuse that code
   fprintf( out , "BEGIN_HEADER\n" ) ;
@@ -329,6 +365,8 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "RNG = PAR_XOR_1024\n" ) ;
 #elif (defined MWC_1038_RNG)
   fprintf( out , "RNG = PAR_MWC_1038\n" ) ;
+#elif (defined WELL_512_RNG)
+  fprintf( out , "RNG = PAR_WELL_512\n" ) ;
 #else
   fprintf( out , "RNG = PAR_MWC_4096\n" ) ;
 #endif
@@ -337,18 +375,25 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "END_HEADER\n" ) ;
 
 #if (defined KISS_RNG)
-  write_par_KISS_table( out ) ;
+  FLAG = write_par_KISS_table( out ) ;
 #elif (defined MWC_4096_RNG)
-  write_par_MWC_4096_table( out ) ;
+  FLAG = write_par_MWC_4096_table( out ) ;
 #elif (defined XOR_1024_RNG)
-  write_par_XOR_1024_table( out ) ;
+  FLAG = write_par_XOR_1024_table( out ) ;
 #elif (defined MWC_1038_RNG)
-  write_par_MWC_1038_table( out ) ;
+  FLAG = write_par_MWC_1038_table( out ) ;
+#elif (defined WELL_512_RNG)
+  FLAG = write_par_WELL_512_table( out ) ;
 #else
-  write_par_MWC_4096_table( out ) ;
+  FLAG = write_par_MWC_4096_table( out ) ;
 #endif
 
-  fclose( out ) ;
+  // the write can fail at any point up to and including the close
+  if( ferror( out ) ) { FLAG = GLU_FAILURE ; }
+  if( fclose( out ) != 0 ) { FLAG = GLU_FAILURE ; }
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "[PAR_RNG] failure writing state file %s\n" , outfile ) ;
+  }
 
-  return ;
+  return FLAG ;
 }
-- 
2.43.0


From b1749b827ac896abf61256eef5a349f3a6af6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 12/51] fix: heatbath trajectory counter set by one thread,
 failed saves reported

---
 src/Update/KPHB.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..19a9426 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -129,7 +129,12 @@ hb_update( struct site *lat ,
 {
   // strip the number in the infile if it has one
   char *pch = strtok( (char*)traj_name , "." ) ;
-  char str[ strlen(pch)+6+sizeof(size_t) ] ;
+  // can't be empty and needs space for ".%zu.rand"
+  if( pch == NULL ) {
+    fprintf( stderr , "[UPDATE] unusable trajectory name\n" ) ;
+    return GLU_FAILURE ;
+  }
+  char str[ strlen(pch)+32 ] ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
   if( HBINFO.continuation == GLU_FALSE ) {
@@ -152,6 +157,9 @@ hb_update( struct site *lat ,
   }
 #else
   if( init_cb( &db , LVOLUME , ND ) == GLU_FAILURE ) {
+    fprintf( stderr , "[UPDATE] failed to initialise the draughtboard\n" ) ;
+    free_cb( &db ) ;
+    free_par_rng( ) ;
     return GLU_FAILURE ;
   }
 #endif
@@ -172,9 +180,21 @@ hb_update( struct site *lat ,
   fprintf( stdout , "[UPDATE] Using beta = %1.12f \n" , HBINFO.beta ) ;
 
   double *PLAQred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
+  if( PLAQred == NULL ) {
+    fprintf( stderr , "[UPDATE] reduction array allocation failure\n" ) ;
+    free_cb( &db ) ;
+    free_par_rng( ) ;
+    return GLU_FAILURE ;
+  }
+
+  // flag for if anything could not be saved
+  int FLAG = GLU_SUCCESS ;
 #ifdef POLY_MEAS
   double *POLYred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
 #endif
+  // the trajectory we start from
+  const size_t start = Latt.flow ;
+
   // thermalise
   start_timer( ) ;
   
@@ -201,8 +221,7 @@ hb_update( struct site *lat ,
     }
     
     // iterate the number of runs
-    const size_t start = Latt.flow ;
-    for( i = Latt.flow ; i < HBINFO.iterations ; i++ ) {
+    for( i = start ; i < HBINFO.iterations ; i++ ) {
 
       // if we are saving the data print out the plaquette and write a file
       if( i%HBINFO.Nmeasure == 0 ) {
@@ -217,26 +236,27 @@ hb_update( struct site *lat ,
       if( i%HBINFO.Nsave == 0 && i != start ) {
 	#pragma omp single
 	{
-	  // write a configuration
+	  // write a configuration with this trajectory number
+	  Latt.flow = i ;
 	  sprintf( str , "%s.%zu" , pch , i ) ;
 	  if( write_configuration( lat , str , storage , output_details )
 	      != GLU_FAILURE ) {
 	    // write out the rng state
 	    sprintf( str , "%s.%zu.rand" , pch , i ) ;
-	    write_par_rng_state( str ) ;
+	    if( write_par_rng_state( str ) == GLU_FAILURE ) {
+	      FLAG = GLU_FAILURE ;
+	    }
+	  } else {
+	    FLAG = GLU_FAILURE ;
 	  }
 	}
       }
 
       // perform a hb-OR step
       update_lattice( lat , inverse_beta , db , HBINFO.Nor ) ;
-
-      #pragma omp master
-      {
-	Latt.flow = i + 1 ; 
-      }
     }
   }
+  Latt.flow = ( HBINFO.iterations > start ) ? HBINFO.iterations : start ;
 
   // free the reduction array
   free( PLAQred ) ;
@@ -253,6 +273,6 @@ hb_update( struct site *lat ,
   // free the rng
   free_par_rng( ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
-- 
2.43.0


From 5aca224787929d53660e7dca7a5c09ccaacc2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 13/51] fix: HIREP writer used a different SU(2) layout from
 the reader

---
 src/IO/HIREP.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index d17f0ed..9a132e1 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -42,6 +42,20 @@ translate_to_GLU_geom( const size_t i )
   return gen_site( x ) ;
 }
 
+#if NC==2
+// SU(2) links are stored as the four real components of a quaternion
+static void
+pack_quaternion( double *u ,
+		 const GLU_complex *U )
+{
+  u[ 0 ] = (double)creal( U[0] ) ;
+  u[ 1 ] = (double)cimag( U[1] ) ;
+  u[ 2 ] = -(double)creal( U[1] ) ;
+  u[ 3 ] = (double)cimag( U[0] ) ;
+  return ;
+}
+#endif
+
 // generic (ish) reader for files in the HiRep format
 int
 read_gauge_field( struct site *__restrict lat , 
@@ -55,6 +69,10 @@ read_gauge_field( struct site *__restrict lat ,
   const size_t stride = 2 * Nelements * ND ;
   // these guys also seem to save only in double, making things easy
   double *uind = malloc( stride * sizeof( double ) ) ; 
+  if( uind == NULL ) {
+    fprintf( stderr , "[IO] HIREP input allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   uint32_t k = 0 ;
   size_t i ;
@@ -166,6 +184,17 @@ write_gauge_field( const struct site *__restrict lat ,
   for( i = 0 ; i < LVOLUME ; i++ ) {
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
+#if NC==2
+    size_t mu , a = 0 ;
+    // t first, in the quaternion layout that the reader expects
+    pack_quaternion( uoutd + a , lat[idx].O[ ND - 1 ] ) ;
+    a += 2*NC ;
+    // then xyz
+    for( mu = 0 ;  mu < ND - 1 ; mu++ ) {
+      pack_quaternion( uoutd + a , lat[idx].O[ mu ] ) ;
+      a += 2*NC ;
+    }
+#else
     size_t mu , j , a = 0 ;
     // t first
     for( j = 0 ; j < mat_stride ; j++ ) {
@@ -181,6 +210,7 @@ write_gauge_field( const struct site *__restrict lat ,
 	a += 2 ;
       }
     } 
+#endif
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
       bswap_64( stride , uoutd ) ; 
-- 
2.43.0


From 6b79ed25e2ad1f3cf64e1fd457a2168eeefe5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 14/51] fix: CERN format refuses odd extents, read failure does
 not exit inside the parallel region

---
 src/IO/CERN.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 9e53ac6..22346f6 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -35,6 +35,22 @@
 #include "plaqs_links.h"   // compute the plaquette
 #include "GLU_timer.h"
 
+// the format stores the links attached to the odd sites , which only covers
+// the lattice if every extent is even
+static GLU_bool
+all_dims_even( void )
+{
+  size_t mu ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ]%2 != 0 ) {
+      fprintf( stderr , "[IO] CERN format requires even lattice extents , "
+	       "dimension %zu is %zu\n" , mu , Latt.dims[ mu ] ) ;
+      return GLU_FALSE ;
+    }
+  }
+  return GLU_TRUE ;
+}
+
 // read a CERN gauge field
 int
 read_CLS_field( struct site *__restrict lat , 
@@ -42,7 +58,9 @@ read_CLS_field( struct site *__restrict lat ,
 		uint32_t *chksum )
 {
   if( ND != 4 ) return GLU_FAILURE ;
+  if( all_dims_even( ) == GLU_FALSE ) return GLU_FAILURE ;
 
+  int FLAG = GLU_SUCCESS ;
   // these guys also seem to save only in double, making things easy
   const size_t stride = 16*NCNC ;
   uint32_t k = 0 ;
@@ -52,13 +70,16 @@ read_CLS_field( struct site *__restrict lat ,
 
     // test idea
     FILE *file = fopen( config_in , "rb" ) ;
-
-    double uin[ LCU*8*NCNC ] GLUalign ;
+    double *uin = malloc( LCU*8*NCNC*sizeof( double ) ) ;
     const size_t offset = 4*sizeof(int)+sizeof(double) +( LCU*t )*8*NCNC*sizeof(double) ;
-    fseek( file , offset , SEEK_CUR) ;
-    if( fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
-      fprintf( stderr , "File read error .. Leaving \n " ) ;
-      exit(1) ;
+    if( file == NULL || uin == NULL || 
+	fseek( file , offset , SEEK_CUR) != 0 ||
+	fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
+      #pragma omp atomic write
+      FLAG = GLU_FAILURE ;
+      if( file != NULL ) { fclose( file ) ; }
+      free( uin ) ;
+      continue ;
     }
     
     double *uind = (double*)(uin) ;
@@ -116,6 +137,11 @@ read_CLS_field( struct site *__restrict lat ,
       }
     }
     fclose( file ) ;
+    free( uin ) ;
+  }
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "[IO] CERN file read error .. Leaving \n" ) ;
+    return GLU_FAILURE ;
   }
 
   if( WORDS_BIGENDIAN ) {
@@ -135,6 +161,7 @@ write_CLS_field( const struct site *__restrict lat ,
     fprintf( stderr , "No known CERN format for Nd != 4\n" ) ;
     return GLU_FAILURE ;
   }
+  if( all_dims_even( ) == GLU_FALSE ) return GLU_FAILURE ;
   
   const size_t stride = 16*NCNC ; 
   
-- 
2.43.0


From 4e0289a29194496cc72e4c6372441c361e2c6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 15/51] fix: BQCD double-precision checksum read the wrong
 buffer, checked read buffers

---
 src/IO/readers.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..56f57d2 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -185,6 +185,10 @@ lattice_reader_suNC( struct site *lat ,
 
   if( HEAD_DATA.precision == DOUBLE_PREC ) {
     uind = ( double* )malloc( LATT_LOOP * sizeof( double ) ) ; 
+    if( uind == NULL ) {
+      fprintf( stderr , "[IO] Configuration read buffer allocation failure\n" ) ;
+      return GLU_FAILURE ;
+    }
     if( fread( uind , sizeof( double ) , LATT_LOOP , in ) != LATT_LOOP ) {
       fprintf( stderr , "[IO] Configuration File reading failure "
 	       ".. Leaving \n" ) ;
@@ -213,8 +217,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
@@ -226,6 +230,10 @@ lattice_reader_suNC( struct site *lat ,
     p = uind ; 
   } else {
     uin = ( float* )malloc( LATT_LOOP * sizeof( float ) ) ; 
+    if( uin == NULL ) {
+      fprintf( stderr , "[IO] Configuration read buffer allocation failure\n" ) ;
+      return GLU_FAILURE ;
+    }
     if( fread( uin , sizeof( float ) , LATT_LOOP  , in ) != LATT_LOOP ) {
       fprintf( stderr , "[IO] Configuration File reading failure "
 	       ".. Leaving \n" ) ;
@@ -375,6 +383,10 @@ lattice_reader_suNC_cheaper( struct site *lat ,
   } else {
     uin = ( float* )malloc( ND*LOOP_VAR * sizeof( float ) ) ; 
   }
+  if( ( HEAD_DATA.precision == DOUBLE_PREC ? (void*)uind : (void*)uin ) == NULL ) {
+    fprintf( stderr , "[IO] Configuration read buffer allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   uint32_t k = 0 , sum29 = 0 , sum31 = 0 ; // NERSC & MILC checksums ...
   uint32_t CRCsum29 = 0 , CRCsum31 = 0 ;
-- 
2.43.0


From dfb3887112fae47900801fdf6e2df8cac9f2c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 16/51] fix: failed HIREP/CERN reads and NaN check values were
 accepted

---
 src/IO/read_config.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 32a1df3..a55c422 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -37,6 +37,7 @@ check_sums( const double plaq ,
 	    const uint32_t chksum ,
 	    const struct head_data HEAD_DATA )
 {
+  // tolerances are tested such that a NaN is a mismatch
   double TTOL = 0.0 ;
   int error = 0 ;
   enum{ DISASTER = 3 } ;
@@ -58,7 +59,7 @@ check_sums( const double plaq ,
     } else {
       TTOL = PLAQ_AND_TRACE_TOL ;
     }
-    if( fabs( HEAD_DATA.plaquette - plaq ) > TTOL ) {
+    if( !( fabs( HEAD_DATA.plaquette - plaq ) <= TTOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes %e %e \n\n" , 
 	       plaq , HEAD_DATA.plaquette ) ; 
       return GLU_FAILURE ;
@@ -73,7 +74,7 @@ check_sums( const double plaq ,
   case HIREP_HEADER :
   case CERN_HEADER :
     // only check available is the plaquette
-    if( fabs( plaq - HEAD_DATA.plaquette ) > 10*PREC_TOL ) {
+    if( !( fabs( plaq - HEAD_DATA.plaquette ) <= 10*PREC_TOL ) ) {
       fprintf( stderr , "[IO] Config Plaquette Mismatch %e vs %e "
 	       " < diff > %e ... Leaving \n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ;
@@ -87,12 +88,12 @@ check_sums( const double plaq ,
 	       chksum , HEAD_DATA.checksum ) ; 
       error ++ ; 
       // TOL is defined as 10^-6
-    } if( fabs( plaq - HEAD_DATA.plaquette ) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( plaq - HEAD_DATA.plaquette ) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes Calc %f || Read %f " 
 	       " < diff > %e \n\n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ; 
       error ++ ; 
-    } if( fabs( tr - HEAD_DATA.trace) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( tr - HEAD_DATA.trace) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Link_Traces Calc %1.8f || "
 	       "Read %1.8f \n\n" , tr , HEAD_DATA.trace ) ; 
       error ++ ; 
@@ -159,10 +160,14 @@ get_config_SUNC( FILE *__restrict CONFIG ,
       }
     } break ;
   case HIREP_HEADER : // HIREP uses a weird geometry compared to everyone else
-    read_gauge_field( lat , CONFIG , &chksum ) ;
+    if( read_gauge_field( lat , CONFIG , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case CERN_HEADER :
-    read_CLS_field( lat , config_in , &chksum ) ;
+    if( read_CLS_field( lat , config_in , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case RANDOM_CONFIG :
     random_suNC( lat ) ;
-- 
2.43.0


From 11e5d8547915a34a0e574673c5bd180ea953f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 17/51] fix: input file reader: bounds, missing optional
 entries, unreadable values

---
 src/IO/input_reader.c | 64 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 28ccc58..4194b92 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -46,15 +46,41 @@ static struct inputs *INPUT = NULL ;
 // counter for the number of tags
 static int NTAGS = 0 ;
 
-// allocate the input file struct
-static void 
+// allocate the input file struct and fill it, fails if the file
+// cannot be read or does not fit
+static int
 pack_inputs( FILE *setup )
 {
+  NTAGS = 0 ;
   INPUT = ( struct inputs* )calloc( INPUTS_LENGTH , sizeof( struct inputs ) ) ;
+  if( INPUT == NULL ) {
+    fprintf( stderr , "[IO] Input file buffer allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
+  // one spare character in the format tells us when something is too long
+  char token[ GLU_STR_LENGTH + 1 ] = "" , value[ GLU_STR_LENGTH + 1 ] = "" ;
   // and put into the buffer
-  while( NTAGS++ , fscanf( setup , "%s = %s" , INPUT[ NTAGS ].TOKEN , 
-			   INPUT[ NTAGS ].VALUE )  != EOF ) { }
-  return ;
+  while( fscanf( setup , "%64s = %64s" , token , value ) != EOF ) {
+    if( NTAGS == INPUTS_LENGTH ) {
+      fprintf( stderr , "[IO] More than %d entries in the input file\n" , 
+	       INPUTS_LENGTH ) ;
+      return GLU_FAILURE ;
+    }
+    if( strlen( token ) >= GLU_STR_LENGTH || 
+	strlen( value ) >= GLU_STR_LENGTH ) {
+      fprintf( stderr , "[IO] Input file entry %s too long\n" , token ) ;
+      return GLU_FAILURE ;
+    }
+    strcpy( INPUT[ NTAGS ].TOKEN , token ) ;
+    strcpy( INPUT[ NTAGS ].VALUE , value ) ;
+    token[0] = value[0] = '\0' ;
+    NTAGS++ ;
+  }
+  if( ferror( setup ) ) {
+    fprintf( stderr , "[IO] Input file read error\n" ) ;
+    return GLU_FAILURE ;
+  }
+  return GLU_SUCCESS ;
 }
 
 // frees up the struct
@@ -62,6 +88,8 @@ static void
 unpack_inputs( void )
 {
   free( INPUT ) ;
+  INPUT = NULL ;
+  NTAGS = 0 ;
   return ;
 }
 
@@ -94,10 +122,13 @@ setint( size_t *val ,
   errno = 0 ;
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
-  *val = (size_t)strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
+  const long int res = strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
+  if( endptr == INPUT[idx].VALUE || errno == ERANGE || res < 0 ) {
+    fprintf( stderr , "[IO] I do not understand %s = %s\n" , 
+	     tag , INPUT[idx].VALUE ) ;
     return GLU_FAILURE ;
   }
+  *val = (size_t)res ;
   return GLU_SUCCESS ;
 }
 
@@ -112,6 +143,8 @@ setdbl( double *val ,
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
   *val = strtod( INPUT[idx].VALUE , &endptr ) ;
   if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
+    fprintf( stderr , "[IO] I do not understand %s = %s\n" , 
+	     tag , INPUT[idx].VALUE ) ;
     return GLU_FAILURE ;
   }
   return GLU_SUCCESS ;
@@ -158,6 +191,8 @@ static int
 config_information( char *details )
 {
   const int details_idx = tag_search( "CONFIG_INFO" ) ;
+  details[0] = '\0' ;
+  if( details_idx == GLU_FAILURE ) return GLU_SUCCESS ;
   sprintf( details , "%s" , INPUT[details_idx].VALUE ) ;
   return GLU_SUCCESS ;
 }
@@ -189,7 +224,11 @@ get_mode( GLU_mode *mode )
   {
     const int seed_idx = tag_search( "SEED" ) ;
     if( seed_idx == GLU_FAILURE ) { return tag_failure( "SEED" ) ; }
-    sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) ;
+    if( sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) != 1 ) {
+      fprintf( stderr , "[IO] I do not understand SEED = %s\n" , 
+	       INPUT[seed_idx].VALUE ) ;
+      return GLU_FAILURE ;
+    }
   }
   return GLU_SUCCESS ;
 }
@@ -303,7 +342,7 @@ header_type( header_mode *HEADINFO )
     } else if( are_equal( INPUT[header_idx].VALUE , "UNIT" ) ) {
       fprintf( stdout , "[IO] Attempting to generate an %dx%d UNIT config \n" 
 	       , NC , NC ) ;
-      read_random_lattice_info( ) ;
+      if( read_random_lattice_info( ) == GLU_FAILURE ) return GLU_FAILURE ;
       *HEADINFO = UNIT_GAUGE ;
     } else if( are_equal( INPUT[header_idx].VALUE , "INSTANTON" ) ) {
       fprintf( stdout , "[IO] Attempting to generate a SU(%d) BPST "
@@ -512,6 +551,7 @@ static GLU_bool
 rtrans( void )
 {
   const int rtrans_idx = tag_search( "RANDOM_TRANSFORM" ) ;
+  if( rtrans_idx == GLU_FAILURE ) return GLU_FALSE ;
   if( are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ) return GLU_TRUE ;
   return GLU_FALSE ;
 }
@@ -593,7 +633,11 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // if we can open the file we push it into a big structure
-  pack_inputs( infile ) ;
+  if( pack_inputs( infile ) == GLU_FAILURE ) {
+    fclose( infile ) ;
+    unpack_inputs( ) ;
+    return GLU_FAILURE ;
+  }
 
   int INPUT_FAILS = 0 ; // counter for the number of failures
 
-- 
2.43.0


From 05e32f5ebeb5e9794e66de9d832ebc59f5491270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 18/51] fix: NERSC files with sequence number 0, as written by
 this code, were rejected

---
 src/IO/read_headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index 3105066..b9a399e 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -248,7 +248,7 @@ get_header_data_NERSC( FILE *CONFIG ,
   if( str == NULL ) { str = "(not specified)" ; }
 
   size_t i = get_size_t( "SEQUENCE_NUMBER" , hdr , &Latt.flow ) ; 
-  if( i != 0 || Latt.flow == 0 ) {
+  if( i != 0 ) {
     fprintf( stderr , "[IO] Unknown sequence number.... \n" ) ; 
     return GLU_FAILURE ;
   }
-- 
2.43.0


From 616d056fc6012ba256a22a6d01fd5ba45aebdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 19/51] fix: NERSC header parser: bounds, malformed lines and
 allocations

---
 src/IO/chklat_stuff.c | 100 +++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 5305d68..2050e67 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -57,8 +57,7 @@ get_float( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%f" , q ) ;
-  return GLU_SUCCESS ;
+  return ( sscanf( p , "%f" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get_int: return value as an int  
@@ -72,8 +71,7 @@ get_int( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%d" , q ) ;
-  return GLU_SUCCESS ;
+  return ( sscanf( p , "%d" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get a long unsigned int
@@ -87,8 +85,26 @@ get_size_t( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%zu" , q ) ;
-  return GLU_SUCCESS ;
+  // scanf would quietly wrap these around
+  if( index( p , '-' ) != NULL ) {
+    return ( GLU_FAILURE ) ;
+  }
+  return ( sscanf( p , "%zu" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
+}
+
+// free the header
+static void
+free_header( struct QCDheader *hdr )
+{
+  int i ;
+  for( i = 0 ; i < hdr -> ntoken ; i++ ) {
+    free( hdr -> token[i] ) ;
+    free( hdr -> value[i] ) ;
+  }
+  free( hdr -> token ) ;
+  free( hdr -> value ) ;
+  free( hdr ) ;
+  return ;
 }
 
 // get_header: read from stream, parsing tokens 
@@ -96,10 +112,9 @@ struct QCDheader *
 get_header( FILE *__restrict in )
 {
   char line[ MAX_LINE_LENGTH ] ;
-  size_t  n , len ;
+  size_t len ;
   struct QCDheader *hdr ;
-  char **tokens , **values ;
-  char *p , *q ;
+  char *q ;
 
   // Begin reading, and check for "BEGIN_HEADER" token 
   if( fgets( line , MAX_LINE_LENGTH , in ) == NULL ) {
@@ -112,50 +127,62 @@ get_header( FILE *__restrict in )
   }
 
   // Allocate space for QCDheader and its pointers 
-  tokens = ( char ** )malloc( MAX_TOKENS * sizeof( char * ) );
-  values = ( char ** )malloc( MAX_TOKENS * sizeof( char * ) );
   hdr = ( struct QCDheader * ) malloc( sizeof ( struct QCDheader ) ) ;
-  hdr -> token = tokens ;
-  hdr -> value = values ;
+  if( hdr == NULL ) {
+    fprintf( stderr , "[IO] Header allocation failure\n" ) ;
+    return NULL ;
+  }
+  hdr -> ntoken = 0 ;
+  hdr -> token = ( char ** )calloc( MAX_TOKENS , sizeof( char * ) ) ;
+  hdr -> value = ( char ** )calloc( MAX_TOKENS , sizeof( char * ) ) ;
+  if( hdr -> token == NULL || hdr -> value == NULL ) {
+    fprintf( stderr , "[IO] Header allocation failure\n" ) ;
+    free_header( hdr ) ;
+    return NULL ;
+  }
 
   // Begin loop on tokens 
-  n = 0 ;
   while (1) {
 
     if( fgets( line , MAX_LINE_LENGTH , in ) == NULL ) {
       fprintf( stderr , "Header reading failed ... Leaving \n" ) ;
-      free( hdr -> token ) ;
-      free( hdr -> value ) ;
-      free( hdr ) ;
+      free_header( hdr ) ;
       return NULL ;
     }
     if( strcmp ( line , "END_HEADER\n" ) == 0 ) {
       break;
     }
 
-    // Tokens are terminated by a space 
+    // Tokens are terminated by a space and followed by an equals
     q = index( line,' ' ) ;
+    if( q == NULL || index( q , '=' ) == NULL || 
+	hdr -> ntoken == MAX_TOKENS ) {
+      fprintf( stderr , "[IO] Header line not understood ... Leaving \n" ) ;
+      free_header( hdr ) ;
+      return NULL ;
+    }
 
     // Overwrite space with a terminating null 
     *q = '\0';
-    len = q - line ;
-
-    // allocate space and copy the token in to it 
-    p = malloc( len+1 ) ;
-    (*hdr).token[n] = p ;
-    strcpy( p , line ) ;
-
+    
+    // the value, without the newline
     q = index(++q,'=') ;
     q++ ;
-
     len = strlen( q ) ;
-    q[len-1] = 0;
-    p = malloc( len ) ;
-    (*hdr).value[n] = p ;
-    strcpy( p , q ) ;
-    n++ ;
+    if( len > 0 && q[len-1] == '\n' ) q[len-1] = 0 ;
+
+    // allocate space and copy the token and the value in to it 
+    const int n = hdr -> ntoken++ ;
+    hdr -> token[n] = malloc( strlen( line ) + 1 ) ;
+    hdr -> value[n] = malloc( strlen( q ) + 1 ) ;
+    if( hdr -> token[n] == NULL || hdr -> value[n] == NULL ) {
+      fprintf( stderr , "[IO] Header allocation failure\n" ) ;
+      free_header( hdr ) ;
+      return NULL ;
+    }
+    strcpy( hdr -> token[n] , line ) ;
+    strcpy( hdr -> value[n] , q ) ;
   }
-  (*hdr).ntoken = n ;
   return (hdr) ;
 }
 
@@ -169,14 +196,7 @@ get_uint32_t( char *s ,
   get_string( s , hdr , &p ) ;
   if( p == NULL ) { return GLU_FAILURE ; }
 
-#ifdef INTS_ARE_32BIT
-  sscanf( p , "%x" , q ) ;
-#else
-  uint32_t j ;
-  sscanf( p , "%x" , &j ) ;
-  *q = (uint32_t) j ;
-#endif
-  return GLU_SUCCESS;
+  return ( sscanf( p , "%x" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // skips the header file because sometimes I don't care what's in it 
-- 
2.43.0


From d65ee2e141c7cc16aa5fc0bc753e5340bb0a99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 20/51] fix: SCIDAC/ILDG record parser: bounds, allocations,
 misread checks

---
 src/IO/Scidac.c   | 19 ++++++++++++++++---
 src/IO/XML_info.c | 15 +++++++++++----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 978637b..c82f9c1 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -96,6 +96,7 @@ parse_SCIDAC_hdr( FILE *infile ,
 
   // again, typebuf is uninteresting ...
   unsigned char *typebuf = (unsigned char*)lime_hdr_rec_type ;
+  typebuf[ 8*MAX_HDR64 - 16 - 1 ] = '\0' ; // make sure it is terminated
   // if we hit the binary data we exit for a binary read, could pass the length
   // of the data but the header has already given us the logical dimensions
   if( strcmp( (const char*)typebuf , "scidac-binary-data" ) == 0 ||
@@ -104,7 +105,14 @@ parse_SCIDAC_hdr( FILE *infile ,
     return GLU_EOF ; // is not end of file, but not error either
   }
   // we should be able to read the remaining data
-  char *io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ;
+  char *io_data = NULL ;
+  if( i_data_length[0] + 1 != 0 ) {
+    io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ;
+  }
+  if( io_data == NULL ) {
+    fprintf( stderr , "[IO] xml record allocation failure ... Leaving \n" ) ;
+    return GLU_FAILURE ;
+  }
   if( fread( io_data , sizeof( char ) , i_data_length[0] , infile ) != 
       i_data_length[0] ) {
     fprintf( stderr , "[IO] xml information reading failed ... Leaving \n" ) ;
@@ -118,7 +126,8 @@ parse_SCIDAC_hdr( FILE *infile ,
     char *endptr ;
     tmp.plaquette = strtod( io_data , &endptr ) ;
     if( io_data == endptr ) {
-      printf( "[IO] BQCD plaquette misread \n" ) ;
+      fprintf( stderr , "[IO] BQCD plaquette misread \n" ) ;
+      free( io_data ) ;
       return GLU_FAILURE ;
     }
     *HEAD_DATA = tmp ;
@@ -127,7 +136,11 @@ parse_SCIDAC_hdr( FILE *infile ,
   if( strcmp( (const char*)typebuf , "bqcd-cksum" ) == 0 ) {
     struct head_data tmp = *HEAD_DATA ;
     unsigned long int cksum ;
-    sscanf( io_data , "%lu" , &cksum ) ;
+    if( sscanf( io_data , "%lu" , &cksum ) != 1 ) {
+      fprintf( stderr , "[IO] BQCD cksum misread \n" ) ;
+      free( io_data ) ;
+      return GLU_FAILURE ;
+    }
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 9d4f381..d88d19a 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -65,7 +65,7 @@ get_prec_tag( char *pch , const char *tag )
   // loop tokens
   while( ( pch = strtok( 0 , "<>" ) ) ) {
     if( !strncmp( pch , tmp , length+1 ) ) break ;
-    sprintf( prec , "%s" , pch ) ;
+    snprintf( prec , sizeof( prec ) , "%s" , pch ) ;
   }
   if( !strcmp( prec , "F" ) ) return FLOAT_PREC ;
   if( !strcmp( prec , "D" ) ) return DOUBLE_PREC ;
@@ -86,7 +86,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
   // We use the C tokenize capabilities to parse this string
   char *pch = strtok( xml_info , "<>" ) ;
   // this is not an error
-  if (strncmp( pch , "?xml" , 4 ) ) {
+  if( pch == NULL || strncmp( pch , "?xml" , 4 ) ) {
     return 0 ;
   }
   int dimensions = 0 ;
@@ -188,6 +188,10 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  Latt.dims[ idx++ ] = strtol( token , &pEnd , 10 ) ;
 	  while( ( token = strtok( NULL , " " ) ) != NULL ) {
 	    if(  ( are_equal( token , "/dims" ) ) ) break ;
+	    if( idx == ND ) {
+	      fprintf( stderr , "[IO] More than %d dimensions\n" , ND ) ;
+	      return GLU_FAILURE ;
+	    }
 	    Latt.dims[ idx ] = strtol( token , &pEnd , 10 ) ;
 	    idx++ ;
 	  } 
@@ -201,7 +205,10 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
       if( are_equal( pch , "suma" ) ) {
 	while( ( pch = strtok( 0 , "<>" ) ) ) {
 	  if( are_equal( pch , "/suma" ) ) break ;
-	  sscanf( pch , "%x" , &(HEAD_DATA -> checksum) ) ;
+	  if( sscanf( pch , "%x" , &(HEAD_DATA -> checksum) ) != 1 ) {
+	    fprintf( stderr , "[IO] suma checksum misread\n" ) ;
+	    return GLU_FAILURE ;
+	  }
 	}
 	continue ;
       }
@@ -229,7 +236,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  if( are_equal( pch , "/field" ) ) break ;
 	  // sometimes there is whitespace around these for some unknown reason
 	  char *token = realFront( pch ) ;
-	  char compare[10] ;
+	  char compare[24] ;
 	  sprintf( compare , "su%dgauge" , NC ) ;
 	  if( !strncmp( compare , token , 8 ) ) {
 	    HEAD_DATA -> config_type = OUTPUT_NCxNC ;
-- 
2.43.0


From 5c294a6efcaf84201eb74406a98ed20f8ce515b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 21/51] fix: refuse senseless lattice dimensions instead of
 computing with them

---
 src/Wrappers/GLUlib_wrap.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index ccc5f32..5a8a6fa 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -91,13 +91,25 @@ read_file( struct head_data *HEAD_DATA ,
   fprintf( stdout , "[IO] reading file %s\n" , config_in ) ;
  
   // initialise the configuration number to zero
-  struct head_data tmp ;
+  struct head_data tmp = { 0 } ;
   if( read_header( infile , &tmp , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[IO] Header reading failure\n" ) ;
     if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   } 
 
+  // the dimensions should make sense, the volume must not overflow
+  size_t mu , vol = SIZE_MAX / ( ND * sizeof( struct site ) ) ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ] < 1 || Latt.dims[ mu ] > vol ) {
+      fprintf( stderr , "[IO] Bad lattice dimension %zu :: %zu\n" ,
+	       mu , Latt.dims[ mu ] ) ;
+      if( infile != NULL ) { fclose( infile ) ; }
+      return NULL ;
+    }
+    vol /= Latt.dims[ mu ] ;
+  }
+
   // initialise geometry so that we can use LVOLUME and stuff
   init_latt( ) ;
 
-- 
2.43.0


From 04682fc791668e2877eba56fe5ecd09c2955bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 22/51] fix: measurement files: failed opens, writes,
 allocations and triplets are reported

---
 src/Cuts/3Dcuts.c         | 36 +++++++++++++----
 src/Cuts/MOMgg.c          |  6 +++
 src/Cuts/MOMggg.c         | 65 +++++++++++++++++++++++--------
 src/Cuts/config_gluons.c  | 21 ++++++++--
 src/Cuts/cut_output.c     | 82 ++++++++++++++++++++++++++++++++-------
 src/Cuts/cut_routines.c   | 11 ++++++
 src/Cuts/cuts.c           | 50 +++++++++++++++++-------
 src/Cuts/glueprop.c       |  6 +++
 src/Cuts/smearing_param.c | 46 +++++++++++++++++-----
 src/Cuts/triplet_gen.c    | 45 ++++++++-------------
 src/Field/POLY.c          | 73 ++++++++++++++++++++++++----------
 src/Field/Qcorr.c         | 37 +++++++++++-------
 src/Field/Qmoments.c      | 37 ++++++++++++++----
 src/Field/Qslab.c         | 36 +++++++++++++----
 src/Field/Qsusc.c         | 26 ++++++++++---
 src/Headers/cut_output.h  | 32 +++++++++++----
 16 files changed, 452 insertions(+), 157 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index 067a158..be5da24 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -71,7 +71,9 @@ mom_gauge_spatial( struct site *__restrict A ,
 
   // FFTW routines
   struct fftw_small_stuff FFTW ;
-  small_create_plans_DFT( &FFTW , Latt.dims , ND-1 ) ;
+  if( small_create_plans_DFT( &FFTW , Latt.dims , ND-1 ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   //// End of the search for Wisdom /////
   
@@ -135,25 +137,36 @@ cuts_spatial ( struct site *__restrict A ,
 {
   fprintf( stdout , "\n[CUTS] Instantaneous Spatial/Temporal prop calculating ... \n" ) ; 
   // performs LOG and FFT of A, rewrites "A" to save space
-  mom_gauge_spatial( A , CUTINFO.definition ) ; 
+  if( mom_gauge_spatial( A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   if( check_psq( CUTINFO ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
   }
   
   // calculate the momentum list
-  size_t *num_mom = malloc( sizeof( size_t ) ) ; 
+  size_t num_mom[ 1 ] = { 0 } ;
   const struct veclist *list = compute_veclist( num_mom , CUTINFO ,
 						ND-1 , GLU_FALSE ) ;
+  if( list == NULL ) {
+    fprintf( stderr , "[CUTS] momentum list allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // Landau correction required for Coulomb gauge too.
   correct_pspace_landau( A , list , num_mom , ND-1 ) ;
 
   // create some useful output and open the file
   char *str = output_str_struct( CUTINFO ) ;
-  FILE *Aps = fopen( str , "wb" ) ; 
+  FILE *Aps = open_cut_file( str ) ;
 
-  write_mom_veclist( Aps , num_mom , list , ND - 1 ) ;
+  int flag = GLU_SUCCESS ;
+  if( Aps == NULL ||
+      write_mom_veclist( Aps , num_mom , list , ND - 1 ) == GLU_FAILURE ) {
+    flag = GLU_FAILURE ;
+  }
 
   //calculate the gluon prop and put into "g2_spatial" time-slice average it too
   /*          
@@ -178,6 +191,11 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   //this is the gluon propagator we will be writing
   double *g2_spatial = ( double* )malloc( num_mom[0] * sizeof( double ) ) ; 
   double *g2_temporal = ( double* )malloc( num_mom[0] * sizeof( double ) ) ; 
+  if( g2_spatial == NULL || g2_temporal == NULL ) {
+    fprintf( stderr , "[CUTS] propagator allocation failure\n" ) ;
+    flag = GLU_FAILURE ;
+  }
+  if( flag == GLU_FAILURE ) { goto memfree ; }
 
   // we average between the time slices to improve the signal some more ...
   const double g2_norm = ND > 2 ? 2.0 / ( ( NCNC - 1 ) * ( ND - 2 ) * LVOLUME ) : 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ; 
@@ -224,15 +242,17 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   fprintf( stdout , "[CUTS] Writing finished...\n[CUTS] Outputting to %s \n" , str ) ;
  
   // FREE STUFF //
-  fclose( Aps ) ;
+ memfree :
+  if( close_cut_file( Aps , str ) == GLU_FAILURE ) {
+    flag = GLU_FAILURE ;
+  }
   free( (void*)list ) ; 
-  free( num_mom ) ; 
   free( str ) ;
   free( g2_spatial ) ;
   free( g2_temporal ) ;
 
   // Exit with a smile
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 
diff --git a/src/Cuts/MOMgg.c b/src/Cuts/MOMgg.c
index c9484b2..33d1dbb 100755
--- a/src/Cuts/MOMgg.c
+++ b/src/Cuts/MOMgg.c
@@ -166,6 +166,12 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
   
   double *g2 = malloc( num_mom[0] * sizeof( double ) ) ;
   double *g3 = malloc( num_mom[0] * sizeof( double ) ) ;
+  if( g2 == NULL || g3 == NULL ) {
+    fprintf( stderr , "[CUTS] vertex allocation failure\n" ) ;
+    free( g2 ) ;
+    free( g3 ) ;
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   #pragma omp parallel for private(i)
diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index cc2e74a..af73e99 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -66,13 +66,25 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   const double g3_norm = 4.0 / ( LVOLUME * NC * ( NCNC - 1 ) ) ;
 #endif
  
+  // the orbits are the even p^2 below nnmax
+  const size_t ntrip = ( nnmax + 1 ) / 2 ;
+  size_t i , count = 0 ;
+  int flag = GLU_SUCCESS ;
+
   //need to compute the triplet, first we compute the momentum of our list
   int **momentum = malloc( num_mom[ 0 ] * sizeof( int * ) ) ; 
+  if( momentum == NULL ) {
+    fprintf( stderr , "[CUTS] vertex allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
-  size_t i ;
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(i) reduction(+:flag)
   for( i = 0 ; i < num_mom[0] ; i++ ) {
     momentum[ i ] = ( int * )malloc( ND * sizeof ( int ) ) ;
+    if( momentum[ i ] == NULL ) {
+      flag = flag + GLU_FAILURE ;
+      continue ;
+    }
     size_t mu ;
     for( mu = 0 ; mu < ND ; mu++ ) {
       momentum[ i ][ mu ] = list[i].MOM[mu] ;
@@ -81,7 +93,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 
   // fill up trip by calling get_triplet again .. read from a file ..
   // set up the number of triplets ... 
-  int *trip = malloc( nnmax/2 * sizeof( int ) ) ;
+  int *trip = malloc( ntrip * sizeof( int ) ) ;
 
   // allocate both the triplet and the projector
   int **triplet = NULL ;
@@ -90,36 +102,54 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   // malloc these as they are pretty big ...
   double *g2 = NULL , *g3 = NULL ;
 
-  int flag = GLU_SUCCESS ;
-  size_t checker = 0 ;
+  size_t checker = 0 , nn ;
+  size_t counter[ 1 ] = { 0 } ;
 
   // look for a file or just calculate it the dumb way
-  read_trip( trip , nnmax ) ;
+  if( flag != GLU_SUCCESS || trip == NULL ||
+      read_trip( trip , nnmax ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] vertex setup failure\n" ) ;
+    flag = GLU_FAILURE ;
+    goto memfree ;
+  }
 
-  size_t nn ;
-  size_t counter[ 1 ] = { 1 } ;
-  for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
+  for( nn = 0 ; nn < ntrip ; nn++ ) {
     counter[ 0 ] += trip[ nn ] ;
   }
   
   // set this up so that it will never be altered, important.
-  const size_t count = counter[ 0 ]  ;
+  count = counter[ 0 ]  ;
   if( count == 0 ) { 
+    fprintf( stderr , "[CUTS] no triplets for this momentum cut\n" ) ;
     flag = GLU_FAILURE ;
     goto memfree ;
   }
 
   triplet = malloc( count * sizeof( int* ) ) ;
   proj = malloc( count * sizeof( double* ) ) ;
+  g2 = malloc( count * sizeof( double ) ) ;
+  g3 = malloc( count * sizeof( double ) ) ;
+  if( triplet == NULL || proj == NULL || g2 == NULL || g3 == NULL ) {
+    fprintf( stderr , "[CUTS] vertex allocation failure\n" ) ;
+    free( triplet ) ; triplet = NULL ;
+    free( proj ) ; proj = NULL ;
+    flag = GLU_FAILURE ;
+    goto memfree ;
+  }
 
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(i) reduction(+:flag)
   for( i = 0 ; i < count ; i++ ) {
     proj[i] = ( double* )malloc( ND * ND * ND *  sizeof ( double ) ) ;
     triplet[i] = ( int* )malloc( 3 *  sizeof( int ) ) ;
+    if( proj[i] == NULL || triplet[i] == NULL ) {
+      flag = flag + GLU_FAILURE ;
+    }
+  }
+  if( flag != GLU_SUCCESS ) {
+    fprintf( stderr , "[CUTS] vertex allocation failure\n" ) ;
+    flag = GLU_FAILURE ;
+    goto memfree ;
   }
-
-  g2 = malloc( count * sizeof( double ) ) ;
-  g3 = malloc( count * sizeof( double ) ) ;
 
   // read in the triplet and the projector 
   flag = read_triplet_and_proj( triplet , // reads in the trips
@@ -133,9 +163,12 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
     goto memfree ;
   }
   
-  write_triplet_mom_list( Ap , counter , momentum , triplet ) ;
+  flag = write_triplet_mom_list( Ap , counter , momentum , triplet ) ;
+  if( flag == GLU_FAILURE ) {
+    goto memfree ;
+  }
 
-  for( nn = 0 ; nn < nnmax/2 ; nn ++ ) {
+  for( nn = 0 ; nn < ntrip ; nn ++ ) {
 
     double psq = 0. ;
     double oneOpsq = 0. ;
diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index 5fd3910..abb41e7 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -104,7 +104,9 @@ spatial_correlator( struct site *__restrict A ,
 
   // FFTW routines
   struct fftw_small_stuff FFTW ;
-  small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
+  if( small_create_plans_DFT( &FFTW , Latt.dims , ND ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   //forward transform
   size_t mu , i , j ;
@@ -310,6 +312,8 @@ spatial_correlator( const struct site *__restrict A ,
 		    const double gsnorm ,
 		    const size_t spacing )
 {
+  // a zero spacing never gets anywhere
+  if( spacing < 1 ) { return GLU_FAILURE ; }
   // this one is more effective
   if( spacing == 1 ) {
     return spatial_pointsource( A , gs , gsnorm ) ;
@@ -347,7 +351,9 @@ cuts_struct_configspace( struct site *__restrict A ,
 	   "gluon propagator\n" ) ;
 
   // smeared gluon field to extract the ground state?
-  SM_wrap_struct( A , SMINFO ) ;
+  if( SM_wrap_struct( A , SMINFO ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   // take the log
   if( Amu_fields( A , CUTINFO.definition ) != GLU_SUCCESS ) {
@@ -361,7 +367,7 @@ cuts_struct_configspace( struct site *__restrict A ,
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_file( str ) ;
 
   // compute the temporal and spatial correlators
   double *gsp = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
@@ -375,6 +381,11 @@ cuts_struct_configspace( struct site *__restrict A ,
   // timeslice length
   size_t lt[ 1 ] = { LT } ;
 
+  if( Ap == NULL || gsp == NULL ) {
+    fprintf( stderr , "[CUTS] correlator setup failure\n" ) ;
+    goto memfree ;
+  }
+
   // spatial correlator from the convolution in momentum space
   if( spatial_correlator( A , gsp , spat_norm , 
 			  CUTINFO.max_t ) == GLU_FAILURE ) {
@@ -396,7 +407,9 @@ cuts_struct_configspace( struct site *__restrict A ,
  memfree :
 
   // close the file
-  fclose( Ap ) ;
+  if( close_cut_file( Ap , str ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
   // and its name
   free( str ) ;
 
diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 4505df2..65eb7f3 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -34,6 +34,7 @@ FWRITE( void *arr ,
 	const size_t stride ,
 	FILE *file )
 {
+  if( file == NULL || arr == NULL ) { return GLU_FAILURE ; }
   // I enforce the re byte-swap in case we want to look at the data again
   if( size == sizeof( int ) ) {
     if( !WORDS_BIGENDIAN ) { bswap_32( stride , arr ) ; }
@@ -51,6 +52,36 @@ FWRITE( void *arr ,
   return GLU_SUCCESS ;
 }
 
+// open the file for the measurement
+FILE *
+open_cut_file( const char *str )
+{
+  if( str == NULL ) {
+    fprintf( stderr , "[CUTS] output file name allocation failure\n" ) ;
+    return NULL ;
+  }
+  FILE *Ap = fopen( str , "wb" ) ;
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] failed to open %s for writing\n" , str ) ;
+  }
+  return Ap ;
+}
+
+// close it, tells us whether everything we wrote ended up in there
+int
+close_cut_file( FILE *Ap ,
+		const char *str )
+{
+  if( Ap == NULL ) { return GLU_FAILURE ; }
+  const int bad = ferror( Ap ) ;
+  if( fclose( Ap ) != 0 || bad != 0 ) {
+    fprintf( stderr , "[CUTS] failure writing to %s\n" ,
+	     str == NULL ? "(null)" : str ) ;
+    return GLU_FAILURE ;
+  }
+  return GLU_SUCCESS ;
+}
+
 // gives us some nominal information on the cutting procedure
 int
 check_psq( const struct cut_info CUTINFO )
@@ -118,10 +149,12 @@ output_str_struct( const struct cut_info CUTINFO )
 
   #ifndef CONDOR_MODE
   char *str = malloc( (1+strlen(CUTINFO.where))*sizeof( char ) ) ;
+  if( str == NULL ) { return NULL ; }
   sprintf( str , "%s" , CUTINFO.where ) ;
   fprintf( stdout , "[CUTS] Our file is located @ %s \n", str ) ;
   #else
   char *str = malloc( (1+strlen("./"))*sizeof( char ) ) ;
+  if( str == NULL ) { return NULL ; }
   sprintf( str , "./" ) ;
   #endif
 
@@ -334,7 +367,7 @@ write_g2g3_to_list( FILE *Ap ,
   return ;
 }
 
-void
+int
 write_lattice_fields( FILE *Ap , 
 		      const struct site *A , 
 		      const struct veclist *list , 
@@ -347,6 +380,10 @@ write_lattice_fields( FILE *Ap ,
   //write lattice fields
   const size_t stride = ND * NCNC * 2 ; // the 2 is for the re/im parts
   double *aout = malloc( stride * sizeof( double ) ) ;
+  if( aout == NULL ) {
+    fprintf( stderr , "[CUTS] allocation failure writing the fields\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   for( i = 0 ; i < num_mom[0] ; i++ ) {
@@ -363,11 +400,11 @@ write_lattice_fields( FILE *Ap ,
     FWRITE( aout , sizeof(double) , stride , Ap ) ;
   }
   free( aout ) ;
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // Support for writing our momentum list
-void
+int
 write_mom_veclist( FILE *Ap , 
 		   size_t *num_mom , 
 		   const struct veclist *list ,
@@ -375,6 +412,10 @@ write_mom_veclist( FILE *Ap ,
 {
   const int stride = ( DIR + 1 ) * num_mom[ 0 ] ;
   int *kall = malloc( stride * sizeof(int) ) ;
+  if( kall == NULL ) {
+    fprintf( stderr , "[CUTS] allocation failure writing the momenta\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   uint32_t nmom[1] = { num_mom[0] } ;
   FWRITE( nmom , sizeof(int) , 1 , Ap ) ;
@@ -394,11 +435,11 @@ write_mom_veclist( FILE *Ap ,
   }
   FWRITE( kall , sizeof(int) , stride , Ap ) ;
   free( kall ) ;
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // write out some moments, re and imaginary
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements )
 {
@@ -406,15 +447,21 @@ write_moments( struct Qmoments *Qmom ,
   double *re = malloc( NQMOMENTS * sizeof( double ) ) ;
   uint32_t nmom[ 1 ] = { NQMOMENTS } ;
   uint32_t Nmeas[ 1 ] = { Nmeasurements } ;
-  char filename[ 256 ] ;
+  char filename[ 256 ] , filename2[ 256 ] ;
+  int flag = GLU_SUCCESS ;
+
+  if( re == NULL ) {
+    fprintf( stderr , "[CUTS] allocation failure writing the moments\n" ) ;
+    return GLU_FAILURE ;
+  }
   
   size_t mu , i , j ;
   for( mu = 0 ; mu < ND ; mu++ ) {
 
     sprintf( filename , "Qmoment_d%zu.%zu.bin" , mu , Latt.flow ) ;
-    Qm = fopen( filename , "wb" ) ;
-    sprintf( filename , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
-    Q2m = fopen( filename , "wb" ) ;
+    Qm = open_cut_file( filename ) ;
+    sprintf( filename2 , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
+    Q2m = open_cut_file( filename2 ) ;
 
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Qm ) ;
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Q2m ) ;
@@ -433,12 +480,17 @@ write_moments( struct Qmoments *Qmom ,
       FWRITE( re , sizeof( double ) , NQMOMENTS , Q2m ) ;
     }
 
-    fclose( Qm ) ; fclose( Q2m ) ; 
+    if( close_cut_file( Qm , filename ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ;
+    }
+    if( close_cut_file( Q2m , filename2 ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ;
+    }
   }
   
   free( re ) ;
   
-  return ;
+  return flag ;
 }
 
 // write out rsq's for the correlator
@@ -474,7 +526,7 @@ write_rr_values( FILE *Ap ,
 }
 
 // Support for writing our triplets momentum
-void
+int
 write_triplet_mom_list( FILE *Ap , 
 			size_t *num_mom , 
 			int **momentum ,
@@ -482,6 +534,10 @@ write_triplet_mom_list( FILE *Ap ,
 {
   const size_t stride = ( ND + 1 ) * num_mom[0] ;
   int *kall = malloc( stride * sizeof( int ) ) ;
+  if( kall == NULL ) {
+    fprintf( stderr , "[CUTS] allocation failure writing the triplets\n" ) ;
+    return GLU_FAILURE ;
+  }
 
 #ifdef ASCII_CHECK
   fprintf( stdout , "[CUTS] triplet momlist\n%d\n", num_mom[0] ) ;
@@ -517,7 +573,7 @@ write_triplet_mom_list( FILE *Ap ,
 #endif
   FWRITE( kall , sizeof(int) , stride , Ap ) ;
   free( kall ) ;
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // write the timeslices, LT[0] is the size of the array
diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 8497415..584b1bd 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -607,6 +607,11 @@ compute_veclist( size_t *__restrict list_size ,
   fclose( config ) ;
 #else
   struct veclist *kept = malloc( LOOP * sizeof( struct veclist ) ) ;
+  if( kept == NULL ) {
+    fprintf( stderr , "[CUTS] momentum list allocation failure\n" ) ;
+    *list_size = 0 ;
+    return NULL ;
+  }
   if( CONFIGSPACE == GLU_TRUE ) {
     in[0] = get_veclist( kept , CUTINFO , LOOP , DIMS ) ;
   } else {
@@ -620,6 +625,12 @@ compute_veclist( size_t *__restrict list_size ,
     return NULL ;
   }
   list = malloc( in[0] * sizeof(struct veclist) );
+  if( list == NULL ) {
+    fprintf( stderr , "[CUTS] momentum list allocation failure\n" ) ;
+    *list_size = 0 ;
+    free( kept ) ;
+    return NULL ;
+  }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < in[0] ; i ++  ) {
     memcpy( &list[i] , &kept[i] , sizeof( struct veclist ) )  ;
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index de4a2b5..355112f 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -60,7 +60,9 @@ mom_gauge( struct site *__restrict A ,
 
   // FFTW routines
   struct fftw_small_stuff FFTW ;
-  small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
+  if( small_create_plans_DFT( &FFTW , Latt.dims , ND ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   
   //forward transform
   size_t mu , j ;
@@ -125,7 +127,7 @@ cuts_struct( struct site *__restrict A ,
   }
 
   // this contains the momentum list
-  size_t *in = malloc( sizeof(size_t) ) ;
+  size_t in[ 1 ] = { 0 } ;
  
   struct cut_info TEMP = CUTINFO ;
   // NONEXCEPTIONAL MUST USE PSQ TO CONSERVE MOMENTUM
@@ -135,45 +137,63 @@ cuts_struct( struct site *__restrict A ,
   
   const struct veclist *list = compute_veclist( in , TEMP ,
 						ND , GLU_FALSE ) ;
+  if( list == NULL ) {
+    fprintf( stderr , "[CUTS] momentum list allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // correct for the Landau condition
   correct_pspace_landau( A , list , in , ND ) ;
   
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_file( str ) ;
+  int check = GLU_SUCCESS ;
+  if( Ap == NULL ) {
+    free( (void*)list ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
-  int check = 0 ;
   switch( CUTINFO.dir ) {
   case FIELDS :
     //all of this work leads to us discarding (most of) our A fields
-    write_mom_veclist( Ap , in , list , ND ) ;
-    write_lattice_fields( Ap , A , list , in ) ;
+    check = write_mom_veclist( Ap , in , list , ND ) ;
+    if( check == GLU_SUCCESS ) {
+      check = write_lattice_fields( Ap , A , list , in ) ;
+    }
     break ;
   case EXCEPTIONAL :      
-    write_mom_veclist( Ap , in , list , ND ) ;
-    check = write_exceptional_g2g3_MOMgg( Ap , A , list , in ) ;
+    check = write_mom_veclist( Ap , in , list , ND ) ;
+    if( check == GLU_SUCCESS ) {
+      check = write_exceptional_g2g3_MOMgg( Ap , A , list , in ) ;
+    }
     break ;
   case NONEXCEPTIONAL :
     // we write the mom-list internally in the g2g3 code as it can
     // be different from the cut-momentum one..
-    write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
+    check = write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
     break ;
   case GLUON_PROPS :
-    write_mom_veclist( Ap , in , list , ND ) ;
-    compute_gluon_prop( Ap , A , list , in ) ;
+    check = write_mom_veclist( Ap , in , list , ND ) ;
+    if( check == GLU_SUCCESS ) {
+      check = compute_gluon_prop( Ap , A , list , in ) ;
+    }
     break ;
   default : // default behaviour to the Exceptional triple glue
-    write_mom_veclist( Ap , in , list , ND ) ;
-    check = write_exceptional_g2g3_MOMgg( Ap , A , list , in ) ;
+    check = write_mom_veclist( Ap , in , list , ND ) ;
+    if( check == GLU_SUCCESS ) {
+      check = write_exceptional_g2g3_MOMgg( Ap , A , list , in ) ;
+    }
     break ;
   }
   fprintf( stdout , "[CUTS] Writing finished...\n"
 	            "[CUTS] Outputting to %s\n" , str ) ;
 
   // Free allocated memory
-  fclose( Ap ) ;
+  if( close_cut_file( Ap , str ) == GLU_FAILURE ) {
+    check = GLU_FAILURE ;
+  }
   free( (void*)list ) ;
-  free( in ) ;
   free( str ) ;
 
   if( check == GLU_FAILURE ) {
diff --git a/src/Cuts/glueprop.c b/src/Cuts/glueprop.c
index 680988f..7f45e95 100755
--- a/src/Cuts/glueprop.c
+++ b/src/Cuts/glueprop.c
@@ -106,6 +106,12 @@ compute_gluon_prop( FILE *__restrict Ap ,
   // allocate the props
   double *transverse = malloc( num_mom[0] * sizeof( double ) ) ;
   double *longitudinal = malloc( num_mom[0] * sizeof( double ) ) ;
+  if( transverse == NULL || longitudinal == NULL ) {
+    fprintf( stderr , "[CUTS] propagator allocation failure\n" ) ;
+    free( transverse ) ;
+    free( longitudinal ) ;
+    return GLU_FAILURE ;
+  }
 
   // set up the zero position
   const size_t zero_pos = ( num_mom[0] ) >> 1 ;
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index 063b86f..b6edf91 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -68,7 +68,9 @@ mom_gauge( struct site *__restrict A ,
   
   /// FFTW routines
   struct fftw_small_stuff FFTW ;
-  small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
+  if( small_create_plans_DFT( &FFTW , Latt.dims , ND ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   // do the FFTs
   size_t mu , j ;
@@ -213,6 +215,10 @@ cuts_struct_smeared( struct site *__restrict A ,
 
   // allocate room for the smeared gauge field
   struct site *SM_A = malloc( LVOLUME * sizeof ( struct site ) ) ;
+  if( SM_A == NULL ) {
+    fprintf( stderr , "[CUTS] smeared field allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
   init_navig( SM_A ) ;
 
   // dirty, create a very weak field
@@ -225,7 +231,10 @@ cuts_struct_smeared( struct site *__restrict A ,
   for( j = 0 ; j < LVOLUME ; j++ ) {
     memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
   }
-  SM_wrap_struct( SM_A , SMINFO ) ;
+  if( SM_wrap_struct( SM_A , SMINFO ) == GLU_FAILURE ) {
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
 #ifdef TADPOLE_IMPROVE
   const double u0 = 1.0 / sqrt( av_plaquette( A ) ) ;
@@ -235,13 +244,22 @@ cuts_struct_smeared( struct site *__restrict A ,
 #endif
 
   // performs LOG and FFT , rewrites "A"
-  mom_gauge( A , CUTINFO.definition ) ;
-  mom_gauge( SM_A , CUTINFO.definition ) ;
+  if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
+      mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
   
   // this contains the length of the momentum list
-  size_t *in = malloc( sizeof(size_t) ) ;
+  size_t in[ 1 ] = { 0 } ;
   const struct veclist *list = compute_veclist( in , CUTINFO , 
 						ND , GLU_FALSE) ;
+  if( list == NULL ) {
+    fprintf( stderr , "[CUTS] momentum list allocation failure\n" ) ;
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
   // correct for the Landau condition, actually not necessary
   correct_pspace_landau( A , list , in , ND ) ;
@@ -249,7 +267,8 @@ cuts_struct_smeared( struct site *__restrict A ,
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_file( str ) ;
+  int flag = GLU_SUCCESS ;
 
   // Here we write the two LANDAU gauge gluon propagators, 
   // unsmeared first and then smeared
@@ -259,6 +278,11 @@ cuts_struct_smeared( struct site *__restrict A ,
 
   double *g2 = malloc( in[0] * sizeof( double ) ) ;
   double *g2_SM = malloc( in[0] * sizeof( double ) ) ;
+  if( Ap == NULL || g2 == NULL || g2_SM == NULL ) {
+    fprintf( stderr , "[CUTS] propagator setup failure\n" ) ;
+    flag = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   size_t i ;
 #pragma omp parallel for private(i)
@@ -283,7 +307,7 @@ cuts_struct_smeared( struct site *__restrict A ,
 #endif
   }
   // create an appropriate output file
-  write_mom_veclist( Ap , in , list , ND ) ;
+  flag = write_mom_veclist( Ap , in , list , ND ) ;
   write_g2g3_to_list( Ap , g2 , g2_SM , in ) ;
 
   // tell us where the output file is ....
@@ -291,17 +315,19 @@ cuts_struct_smeared( struct site *__restrict A ,
 	            "[CUTS]Outputting to %s \n" , str ) ;
 
   // free the props
+ memfree :
   free( g2 ) ;
   free( g2_SM ) ;
 
   // free everything else
-  fclose( Ap ) ;
+  if( close_cut_file( Ap , str ) == GLU_FAILURE ) {
+    flag = GLU_FAILURE ;
+  }
   free( (void*)list ) ;
-  free( in ) ;
   free( str ) ;
   free( SM_A ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // undefine the weak field
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 530fa80..adb9ba3 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -25,7 +25,7 @@
 #include "str_stuff.h"    // append_char()
 
 // generic delta function
-static double **d ;
+static double d[ ND ][ ND ] ;
 
 // get a position of a possible momentum
 static size_t
@@ -57,10 +57,8 @@ get_posit( const int *p ,
 static void
 init_delta( void )
 {
-  d = (double**)malloc( ND * sizeof( double* ) ) ;
   int i , j ;
   for( i = 0 ; i < ND ; i++ ) {
-    d[i] = (double*)malloc( ND * sizeof( double ) ) ;
     for( j = 0 ; j < ND ; j++ ) {
       d[i][j] = ( i!=j ) ? 0.0 : 1.0 ;
     }
@@ -68,18 +66,6 @@ init_delta( void )
   return ;
 }
 
-// clear up the delta function
-static void
-free_delta( void )
-{
-  size_t i ;
-  for( i = 0 ; i < ND ; i++ ) {
-    free( d[i] ) ;
-  }
-  free( d ) ;
-  return ;
-}
-
 //  Recurse the second looking for again equivalent psq's and finally the 
 //  third triplet. If we are setting the values of the triplet we do a check
 //  with the lattice momentum.
@@ -116,9 +102,7 @@ recurse_p2( int *__restrict *__restrict triplet ,
       if( FIRST_PASS != GLU_TRUE ) {
 
 	// compute the asymmetry-adjusted momenta ...
-	int *adp1 = malloc( ND * sizeof( int ) ) ;
-	int *adp2 = malloc( ND * sizeof( int ) ) ;
-	int *adp3 = malloc( ND * sizeof( int ) ) ;
+	int adp1[ ND ] , adp2[ ND ] , adp3[ ND ] ;
 
 	// compute the asymmetry-adjusted momenta ...
 	int sumzeros = 0 ;
@@ -130,18 +114,19 @@ recurse_p2( int *__restrict *__restrict triplet ,
 	    sumzeros++ ;
 	  }
 	}
+        #if ND == 4
 	if( sumzeros == 4 ) {
 	  printf( "(%d %d %d %d)," , adp1[0] , adp1[1] , adp1[2] , adp1[3] ) ;
 	  printf( "(%d %d %d %d)," , adp2[0] , adp2[1] , adp2[2] , adp2[3] ) ;
 	  printf( "(%d %d %d %d)\n" , adp3[0] , adp3[1] , adp3[2] , adp3[3] ) ;
 	}
+        #endif
  
 	const size_t trip_idx = count + check ;
 	
 	triplet[ trip_idx ][0] = get_posit( adp1 , (const int**)momentum , nmom ) ;
 	triplet[ trip_idx ][1] = get_posit( adp2 , (const int**)momentum , nmom ) ;
 	triplet[ trip_idx ][2] = get_posit( adp3 , (const int**)momentum , nmom ) ;
-	free( adp1 ) ; free( adp2 ) ; free( adp3 ) ;
       }
       // increment our check
       check ++ ;
@@ -179,14 +164,13 @@ recurse_p( int *__restrict *__restrict triplet ,
   }
   // if we have a hit we recurse down a level
   if( sum == nn ) {
-    int *p2 = malloc( ND * sizeof( int ) ) ;
+    int p2[ ND ] ;
     for( mu = 0 ; mu < ND ; mu++ ) {
       p2[ mu ] = -(int)r_nn ; 
     }  
     count += recurse_p2( triplet , momentum , p1 , p2 , 
 			 nn , r_nn , nmom ,  
 			 count , check , FIRST_PASS ) ;
-    free( p2 ) ;
   }
   // loop the smallest first
   for( mu = ND ; mu > 0 ; mu-- ) {
@@ -225,7 +209,7 @@ get_triplet( int *__restrict *__restrict triplet ,
   // loop the nn's
   for( nn = 0 ; nn < nnmax ; nn += 2 ) {
     const size_t root_nn = (size_t)sqrt( nn ) ;
-    int *p = malloc( ND * sizeof( int ) ) ;
+    int p[ ND ] ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
       p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? \
 	-(int)root_nn : 0.0 ;
@@ -234,10 +218,18 @@ get_triplet( int *__restrict *__restrict triplet ,
     count = recurse_p( triplet , momentum , p , 
 		       nn , root_nn , nmom , 
 		       count , GLU_FALSE ) ;
-    free( p ) ;
 
     printf( "Checking mom-conservation orbit :: %zu \n" , nn ) ; 
   }
+
+  // a triplet with a momentum that is not in the list is of no use
+  size_t i ;
+  for( i = 0 ; i < count ; i++ ) {
+    if( triplet[i][0] < 0 || triplet[i][1] < 0 || triplet[i][2] < 0 ) {
+      fprintf( stderr , "[CUTS] momentum list does not contain every triplet\n" ) ;
+      return GLU_FAILURE ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
@@ -263,7 +255,7 @@ get_trip( int *__restrict trip ,
   for( nn = 0 ; nn < nnmax ; nn += 2 ) {
 
     const size_t root_nn = (size_t)sqrt( nn ) ;
-    int *p = malloc( ND * sizeof( int ) ) ;
+    int p[ ND ] ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
       p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? -(int)root_nn : 0.0 ;
     }
@@ -273,7 +265,6 @@ get_trip( int *__restrict trip ,
 			     nn , root_nn , nmom , 
 			     count , GLU_TRUE ) ;
 
-    free( p ) ;
     count = this ;
     trip[nn/2] = count - check ;
     printf( "[CUTS] %zu :: %d \n" , nn>>1 , trip[nn>>1] ) ;
@@ -583,7 +574,6 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
     }
     // close the temporary file
     fclose( config2 ) ;
-    free_delta( ) ;
     // free the temporary triplet "triple"
     #pragma omp parallel for private(i)
     for( i = 0 ; i < count ; i++ ) {
@@ -614,13 +604,10 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
   init_delta( ) ;
   // If the triplet fails we leave
   if( get_triplet( triplet , momentum , nnmax , nmom ) == GLU_FAILURE ) {
-    free_delta( ) ;
     return GLU_FAILURE ;
   }
   // compute the projector here 
   compute_projector( triplet , proj , momentum , count ) ;
-  // and free the delta
-  free_delta( ) ;
 #endif
   return GLU_SUCCESS ;
 }
diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index b176010..0a68f48 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -205,17 +205,25 @@ static_quark_correlator( double complex *result ,
       != 0 ) {
     return GLU_FAILURE ;
   }
-  size_t i ;
-  #pragma omp parallel for private(i)
+  size_t i , t ;
+  int flag = GLU_SUCCESS ;
+  #pragma omp parallel for private(i) reduction(+:flag)
   for( i = 0 ; i < LCU ; i++ ) {
-    GLU_malloc( (void**)&slice_poly[i] , 16 , NCNC * sizeof( GLU_complex ) ) ;
+    slice_poly[i] = NULL ;
+    if( GLU_malloc( (void**)&slice_poly[i] , 16 ,
+		    NCNC * sizeof( GLU_complex ) ) != 0 ) {
+      flag = flag + GLU_FAILURE ;
+    }
   }
 
   // FFTW routines
   struct fftw_small_stuff FFTW ;
-  small_create_plans_DFT( &FFTW , Latt.dims , ND-1 ) ;
+  if( small_create_plans_DFT( &FFTW , Latt.dims , ND-1 ) == GLU_FAILURE ||
+      flag != GLU_SUCCESS ) {
+    flag = GLU_FAILURE ;
+    goto memfree ;
+  }
 
-  size_t t ;
   for( t = 0 ; t < Latt.dims[ ND - 1 ] ; t++ ) {
     // compute the tr tr combination
     compute_trtr( trtr , &FFTW , poly , list , rsq_count , t ) ;
@@ -234,6 +242,7 @@ static_quark_correlator( double complex *result ,
   }
 
   // free the FFTs
+ memfree :
   small_clean_up_fftw( FFTW ) ;
 
   // free the temporary polyakov loops
@@ -243,7 +252,7 @@ static_quark_correlator( double complex *result ,
   }
   free( slice_poly ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // NON-fftw version is pretty slow
@@ -313,7 +322,9 @@ Coul_staticpot( struct site *lat ,
 {
   // do some smearing? Overwrites lat, should I state that I only think
   // SPATIAL dimensional smearing is safe ... probably
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   // important!! T is the length of the polyakov loop in time direction
   const size_t T = CUTINFO.max_t ;
@@ -334,11 +345,18 @@ Coul_staticpot( struct site *lat ,
   }
 
   size_t i ;
-  #pragma omp parallel for private(i)
+  int flag = GLU_SUCCESS ;
+  #pragma omp parallel for private(i) reduction(+:flag)
   for( i = 0 ; i < LVOLUME ; i++ ) { 
-    GLU_malloc( (void**)&poly[i] , 16 , NCNC * sizeof( GLU_complex ) ) ;
-    identity( poly[i] ) ;
+    poly[i] = NULL ;
+    if( GLU_malloc( (void**)&poly[i] , 16 ,
+		    NCNC * sizeof( GLU_complex ) ) != 0 ) {
+      flag = flag + GLU_FAILURE ;
+    } else {
+      identity( poly[i] ) ;
+    }
   }
+  if( flag != GLU_SUCCESS ) { flag = GLU_FAILURE ; }
 
   // compute the momentum list
   size_t size[1] = { 0 } ;
@@ -346,10 +364,20 @@ Coul_staticpot( struct site *lat ,
 
   // set up the outputs
   const char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ;
+  FILE *Ap = open_cut_file( str ) ;
+
+  // allocate the results
+  double complex *result = malloc( size[0] * sizeof( double complex ) ) ; 
+  double complex *trtr   = malloc( size[0] * sizeof( double complex ) ) ; 
 
   // write the list, in cut_outputs.c
-  write_mom_veclist( Ap , size , list , ND-1 ) ;
+  if( flag == GLU_FAILURE || list == NULL || Ap == NULL || 
+      result == NULL || trtr == NULL ||
+      write_mom_veclist( Ap , size , list , ND-1 ) == GLU_FAILURE ) {
+    fprintf( stderr , "[STATIC-POTENTIAL] setup failure\n" ) ;
+    flag = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   // tell us where it is going
   fprintf( stdout , "[STATIC-POTENTIAL] writing correlators up to "
@@ -362,10 +390,6 @@ Coul_staticpot( struct site *lat ,
   fwrite( Tcorrs , sizeof(uint32_t) , 1 , Ap ) ;
   if( !WORDS_BIGENDIAN ) { bswap_32( 1 , Tcorrs ) ; }  
 
-  // allocate the results
-  double complex *result = malloc( size[0] * sizeof( double complex ) ) ; 
-  double complex *trtr   = malloc( size[0] * sizeof( double complex ) ) ; 
-
   // precompute the polyakov loop
   size_t t ;
   for( t = 1 ; t < T ; t++ ) {
@@ -387,9 +411,13 @@ Coul_staticpot( struct site *lat ,
     }
     
     // compute the two quark correlator
-    static_quark_correlator( result , trtr , 
-			     (const GLU_complex**)poly , 
-			     list , size[0] ) ;
+    if( static_quark_correlator( result , trtr , 
+				 (const GLU_complex**)poly , 
+				 list , size[0] ) == GLU_FAILURE ) {
+      fprintf( stderr , "[STATIC-POTENTIAL] correlator failure\n" ) ;
+      flag = GLU_FAILURE ;
+      goto memfree ;
+    }
 
     // write out the result of all that work
     write_complex_g2g3_to_list( Ap , result , trtr , size ) ;
@@ -400,7 +428,10 @@ Coul_staticpot( struct site *lat ,
   }
 
   // close the file
-  fclose( Ap ) ; 
+ memfree :
+  if( close_cut_file( Ap , str ) == GLU_FAILURE ) {
+    flag = GLU_FAILURE ;
+  }
 
   // memory free ...
   free( result ) ;
@@ -415,5 +446,5 @@ Coul_staticpot( struct site *lat ,
   // free the momentum list
   free( list ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index f858a70..a12af89 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -38,14 +38,20 @@ temporal_correlator( const GLU_complex *qtop ,
 		     const char *str )
 {
   // append .tcorr onto the output
+  int flag = GLU_SUCCESS ;
   char cstr[ strlen(str)+7 ] ;
   sprintf( cstr , "%s.tcorr" , str ) ; 
-  FILE *Ap = fopen( cstr , "wb" ) ; 
+  FILE *Ap = open_cut_file( cstr ) ;
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ND-1] } ;
 
   double *ct = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
+  if( ct == NULL ) {
+    fprintf( stderr , "[QSUSC] correlator allocation failure\n" ) ;
+    close_cut_file( Ap , cstr ) ;
+    return GLU_FAILURE ;
+  }
 
   // write out the timeslice list ...
   write_tslice_list( Ap , lt ) ;
@@ -74,10 +80,12 @@ temporal_correlator( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // memory frees
-  fclose( Ap ) ;
+  if( close_cut_file( Ap , cstr ) == GLU_FAILURE ) {
+    flag = GLU_FAILURE ;
+  }
   free( ct ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // computation of the correlator
@@ -107,21 +115,18 @@ compute_Qcorr( struct site *__restrict lat ,
   char tmp[64] ;
   sprintf( tmp , "m%zu" , measurement ) ;
   append_char( &str , tmp ) ; 
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_file( str ) ;
 
   // flag for success or failure
   int FLAG = GLU_FAILURE ;
 
-  // write the list, in cut_outputs.c
-  write_mom_veclist( Ap , size , list , ND ) ;
-
   // set up the matrix-valued array of the topological charge
   struct fftw_small_stuff FFTW ;
 #ifndef HAVE_FFTW3_H
   FFTW.in = FFTW.out = FFTW.psq = NULL ;
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
 #else
-  small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
+  const int planned = small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
 #endif
   size_t i ;
 
@@ -129,9 +134,16 @@ compute_Qcorr( struct site *__restrict lat ,
   double *qcorr = malloc( size[0] * sizeof( double ) ) ; 
 
   // logic to fail
+  if( str == NULL || Ap == NULL ) goto memfree ;
   if( list == NULL ) goto memfree ;
   if( qcorr == NULL ) goto memfree ;
   if( FFTW.in == NULL ) goto memfree ;
+#ifdef HAVE_FFTW3_H
+  if( planned == GLU_FAILURE ) goto memfree ;
+#endif
+
+  // write the list, in cut_outputs.c
+  if( write_mom_veclist( Ap , size , list , ND ) == GLU_FAILURE ) goto memfree ;
 
   // precompute all of charge densities q(x)
   compute_Gmunu_array( FFTW.in , lat ) ;
@@ -196,7 +208,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #endif
 
   // look at the correlator of this thing too
-  temporal_correlator( FFTW.in , str ) ;
+  FLAG = temporal_correlator( FFTW.in , str ) ;
 
   // tell us where to go
   fprintf( stdout , "[CUTS] Outputting to %s \n" , str ) ;
@@ -204,13 +216,12 @@ compute_Qcorr( struct site *__restrict lat ,
   // write out the result of all that work
   write_g2_to_list( Ap , qcorr , size ) ;
   
-  // we are quite successful if we get here
-  FLAG = GLU_SUCCESS ;
-
  memfree :
 
   // close the file and its name
-  fclose( Ap ) ;
+  if( close_cut_file( Ap , str ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
   free( str ) ;
 
   // free up all of the allocations
diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index d222d3b..de98336 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -81,6 +81,13 @@ Time_Moments( double *Moment ,
 {
   // sum qtop into a correlator q(t)
   GLU_complex *Qt = malloc( Latt.dims[ DIR ] * sizeof( GLU_complex ) ) ;
+  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
+  if( Qt == NULL || tpow == NULL ) {
+    fprintf( stderr , "[QMOMENTS] allocation failure\n" ) ;
+    free( Qt ) ;
+    free( tpow ) ;
+    return GLU_FAILURE ;
+  }
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
@@ -113,7 +120,6 @@ Time_Moments( double *Moment ,
   }
 
   // initialise powers of t to t^0
-  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
   for( t = 0 ; t < (int)LT ; t++ ) {
     tpow[ t ] = 1 ;
   }
@@ -164,8 +170,10 @@ compute_Q_moments( struct Qmoments *Qmom ,
 
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    Time_Moments( Qmom -> Q , FFTW.in ,
-		  NORM , mu ) ;
+    if( Time_Moments( Qmom -> Q , FFTW.in ,
+		      NORM , mu ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
   }
 
   return GLU_SUCCESS ;
@@ -197,8 +205,10 @@ compute_Q2_moments( struct Qmoments *Qmom ,
 
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    Time_Moments( Qmom -> Q2 , FFTW.in ,
-		  mulfac , mu ) ;
+    if( Time_Moments( Qmom -> Q2 , FFTW.in ,
+		      mulfac , mu ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
   }
   
 #else
@@ -219,8 +229,10 @@ compute_Q2_moments( struct Qmoments *Qmom ,
 
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    Time_Moments( Qmom -> Q2 , FFTW.out ,
-		  NORMSQ , mu ) ;
+    if( Time_Moments( Qmom -> Q2 , FFTW.out ,
+		      NORMSQ , mu ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
   }
   
 #endif
@@ -238,10 +250,19 @@ compute_Qmoments( struct site *__restrict lat ,
 
   struct fftw_small_stuff FFTW ;
 #ifdef HAVE_FFTW3_H
-  small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
+  if( small_create_plans_DFT( &FFTW , Latt.dims , ND ) == GLU_FAILURE ) {
+    small_clean_up_fftw( FFTW ) ;
+    return GLU_FAILURE ;
+  }
 #else
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
   FFTW.out = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  if( FFTW.in == NULL || FFTW.out == NULL ) {
+    fprintf( stderr , "[QMOMENTS] charge density allocation failure\n" ) ;
+    free( FFTW.in ) ;
+    free( FFTW.out ) ;
+    return GLU_FAILURE ;
+  }
 #endif
   int FLAG = GLU_FAILURE ;
 
diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0bb25b1..87a6ea5 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -82,13 +82,19 @@ compute_slabs( const GLU_complex *qtop ,
   char tmp[64] ;
   sprintf( tmp , ".m%zu.tcorr_d%zu" , measurement , SLAB_DIR ) ;
   append_char( &str , tmp ) ;
-  FILE *Ap = fopen( str , "wb" ) ;
+  FILE *Ap = open_cut_file( str ) ;
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ SLAB_DIR ] } ;
 
   // temporal correlator
   double *ct = malloc( Latt.dims[ SLAB_DIR ] * sizeof( double ) ) ;
+  int flag = GLU_SUCCESS ;
+  if( Ap == NULL || ct == NULL ) {
+    fprintf( stderr , "[QSUSC] slab setup failure\n" ) ;
+    flag = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   // write out the timeslice list ...
   write_tslice_list( Ap , lt ) ;
@@ -122,7 +128,11 @@ compute_slabs( const GLU_complex *qtop ,
     #endif
 
     struct fftw_small_stuff FFTW ;
-    small_create_plans_DFT( &FFTW , dims , ND ) ;
+    if( small_create_plans_DFT( &FFTW , dims , ND ) == GLU_FAILURE ) {
+      small_clean_up_fftw( FFTW ) ;
+      flag = GLU_FAILURE ;
+      goto memfree ;
+    }
     
 #endif
 
@@ -150,7 +160,7 @@ compute_slabs( const GLU_complex *qtop ,
       }
       // perform convolution the dumb way
       #else
-      #pragma omp parallel for private(i)
+      #pragma omp parallel for private(i) reduction(+:sum_slab)
       for( i = 0 ; i < subvol ; i++ ) {
 	const size_t src = slab_idx( i , dims , SLAB_DIR , T0 ) ;
 	const double qsrc = qtop[ src ] ;
@@ -188,10 +198,14 @@ compute_slabs( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // free allocated memory
+ memfree :
+  if( close_cut_file( Ap , str ) == GLU_FAILURE ) {
+    flag = GLU_FAILURE ;
+  }
   free( str ) ;
-  fclose( Ap ) ;
+  free( ct ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // compute the topological susceptibility on a "slab"
@@ -202,6 +216,11 @@ compute_Qsusc( struct site *lat ,
 {
   // set up the matrix-valued array of the topological charge
   GLU_complex *qtop = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  if( qtop == NULL ) {
+    fprintf( stderr , "[QSUSC] charge density allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
+  int flag = GLU_SUCCESS ;
 
   // precompute all of charge densities q(x) over whole lattice
   compute_Gmunu_array( qtop , lat ) ;
@@ -209,10 +228,13 @@ compute_Qsusc( struct site *lat ,
   // slabby slab slab
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    compute_slabs( qtop , CUTINFO , mu , measurement ) ;
+    if( compute_slabs( qtop , CUTINFO , mu , measurement ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ;
+      break ;
+    }
   }
   
   free( qtop ) ;
   
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index 5bd26e2..a92ba23 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -42,15 +42,27 @@ compute_Qsusc_step( struct site *__restrict lat ,
   fprintf( stdout , "[QSUSC] performing %zu measurements at %zu" 
 	   " smearing steps\n" , CUTINFO.max_t , SMINFO.smiters ) ;
 
+  // at least the unsmeared configuration has to be there
+  const size_t Nmeas = CUTINFO.max_t > 0 ? CUTINFO.max_t - 1 : 0 ;
+
   // allocations for the moments
   struct Qmoments *Qmom = NULL ;
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
-    Qmom = malloc( ( CUTINFO.max_t - 1 ) * sizeof( struct Qmoments ) ) ;
+    Qmom = malloc( ( Nmeas + 1 ) * sizeof( struct Qmoments ) ) ;
+    if( Qmom == NULL ) {
+      fprintf( stderr , "[QSUSC] moments allocation failure\n" ) ;
+      return GLU_FAILURE ;
+    }
     size_t t ;
-    for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
+    for( t = 0 ; t < Nmeas ; t++ ) {
       Qmom[t].Q  = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
       Qmom[t].Q2 = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
+      if( Qmom[t].Q == NULL || Qmom[t].Q2 == NULL ) {
+	fprintf( stderr , "[QSUSC] moments allocation failure\n" ) ;
+	flag = GLU_FAILURE ;
+      }
     }
+    if( flag == GLU_FAILURE ) { goto memfree ; }
   }
 
   // compute the topological correlator in r and the temporal correlator
@@ -64,7 +76,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   for( measurement = 1 ; measurement < CUTINFO.max_t ; measurement++ ) {
 
     // do some smearing ...
-    SM_wrap_struct( lat , SMINFO ) ;
+    if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ; break ;
+    }
     
     // compute the topological correlator in r and the temporal correlator
     if( CUTINFO.dir == TOPOLOGICAL_SUSCEPTIBILITY ) {
@@ -89,10 +103,12 @@ compute_Qsusc_step( struct site *__restrict lat ,
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
 
     // write to a file
-    write_moments( Qmom , CUTINFO.max_t-1 ) ;
+    if( flag == GLU_SUCCESS ) {
+      flag = write_moments( Qmom , Nmeas ) ;
+    }
     
     size_t t ;
-    for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
+    for( t = 0 ; t < Nmeas ; t++ ) {
       free( Qmom[t].Q ) ; free( Qmom[t].Q2 ) ;
     }
     free( Qmom ) ; 
diff --git a/src/Headers/cut_output.h b/src/Headers/cut_output.h
index ef30e84..2a5b309 100755
--- a/src/Headers/cut_output.h
+++ b/src/Headers/cut_output.h
@@ -34,6 +34,22 @@
 int
 check_psq( const struct cut_info CUTINFO ) ;
 
+/**
+   @fn FILE* open_cut_file( const char *str )
+   @brief open a measurement file for writing, complains and returns NULL if that is not possible
+ **/
+FILE*
+open_cut_file( const char *str ) ;
+
+/**
+   @fn int close_cut_file( FILE *Ap , const char *str )
+   @brief close a measurement file
+   @return #GLU_FAILURE if anything written to it was lost
+ **/
+int
+close_cut_file( FILE *Ap ,
+		const char *str ) ;
+
 /**
    @fn char* output_str_struct( const struct cut_info CUTINFO , const size_t measurement )
    @brief From the cutting information, creates the output string necessary
@@ -99,7 +115,7 @@ write_g2g3_to_list( FILE *__restrict Ap ,
 		    size_t num_mom[ 1 ] ) ;
 
 /**
-   @fn void write_lattice_fields( FILE *__restrict Ap , const struct site *__restrict A , const struct veclist *__restrict list , const size_t num_mom[1] )
+   @fn int write_lattice_fields( FILE *__restrict Ap , const struct site *__restrict A , const struct veclist *__restrict list , const size_t num_mom[1] )
    @brief This function writes out the full matrices.  
    
    @param Ap :: File that we output to.
@@ -107,14 +123,14 @@ write_g2g3_to_list( FILE *__restrict Ap ,
    @param list :: momenta in the \f$-\pi \rightarrow \pi\f$ BZ, kept after cutting.
    @param num_mom :: number of momenta in the list after cutting.
  **/
-void
+int
 write_lattice_fields( FILE *__restrict Ap , 
 		      const struct site *__restrict A , 
 		      const struct veclist *__restrict list , 
 		      size_t num_mom[1] ) ;
 
 /**
-   @fn void write_mom_veclist( FILE *Ap , size_t *num_mom , const struct veclist *list , const size_t DIR )
+   @fn int write_mom_veclist( FILE *Ap , size_t *num_mom , const struct veclist *list , const size_t DIR )
    @brief This writes the momentum list. DIR is the number of momenta to
    write usually ND or ND-1.
    @param Ap :: File that we output to.
@@ -122,26 +138,26 @@ write_lattice_fields( FILE *__restrict Ap ,
    @param list :: momenta stored in some definition of the BZ
    @param DIR :: number of directions of momenta used
  **/
-void
+int
 write_mom_veclist( FILE *Ap , 
 		   size_t *num_mom , 
 		   const struct veclist *list ,
 		   const size_t DIR ) ;
 
 /**
-   @fn void write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
+   @fn int write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
  **/
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements ) ;
 
 /**
-   @fn void write_triplet_mom_list( FILE *Ap , size_t *num_mom , int **momentum , int **triplet )
+   @fn int write_triplet_mom_list( FILE *Ap , size_t *num_mom , int **momentum , int **triplet )
    @brief write out the momentum list for the triplets
 
    @warning I only write out one of the three momenta because after projection the vertex is of p^2  
  **/
-void
+int
 write_triplet_mom_list( FILE *Ap , 
 			size_t *num_mom , 
 			int **momentum ,
-- 
2.43.0


From af2a284c1b7f64f7eb2306ce351f95748905af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:43 +0000
Subject: [PATCH 23/51] fix: config-space correlator says why it failed

---
 src/Cuts/config_gluons.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index abb41e7..3b28525 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -389,6 +389,8 @@ cuts_struct_configspace( struct site *__restrict A ,
   // spatial correlator from the convolution in momentum space
   if( spatial_correlator( A , gsp , spat_norm , 
 			  CUTINFO.max_t ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] correlator failure for spacing %zu\n" ,
+	     CUTINFO.max_t ) ;
     goto memfree ;
   }
 
-- 
2.43.0


From 7daec7bf7467e25c80c7788a798ed2c8d8b0f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:43 +0000
Subject: [PATCH 24/51] fix: allocation failures in the flow measurements and
 random transforms

---
 src/Geometry/random_config.c | 54 ++++++++++++++++++++++++------------
 src/Gfix/Landau.c            |  7 +++--
 src/Headers/random_config.h  | 16 +++++------
 src/Headers/wflowfuncs.h     | 13 +++++++--
 src/IO/read_config.c         |  3 +-
 src/Smear/adaptive_flow.c    | 43 ++++++++++++++++++++--------
 src/Smear/wflow.c            | 37 ++++++++++++++++++------
 src/Smear/wflowfuncs.c       | 34 +++++++++++++++++++++--
 src/Wrappers/GLUlib_wrap.c   | 20 ++++++++++---
 9 files changed, 169 insertions(+), 58 deletions(-)

diff --git a/src/Geometry/random_config.c b/src/Geometry/random_config.c
index 1cae438..3f0cde1 100755
--- a/src/Geometry/random_config.c
+++ b/src/Geometry/random_config.c
@@ -57,27 +57,41 @@ latt_reunitU( struct site *__restrict lat )
 }
 
 // random gauge transform for our su(NC) matrix
-void 
+int
 random_gtrans( struct site *__restrict lat )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
  
   fprintf( stdout , "\n[RNG] Performing a RANDOM gauge transformation \n" ) ;
 
   GLU_complex **gauge = NULL ;
   
   if( GLU_malloc( (void**)&gauge , ALIGNMENT , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
-    fprintf( stdout , "[RANDOM] Allocation failed \n" ) ;
+    fprintf( stderr , "[RANDOM] Allocation failed \n" ) ;
+    return GLU_FAILURE ;
   }
 
+  int flag = GLU_SUCCESS ;
   size_t i ;
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(i) reduction(+:flag)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    GLU_malloc( (void**)&gauge[i] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) ;
-    Sunitary_gen( gauge[i] , get_GLU_thread( ) ) ;
+    gauge[i] = NULL ;
+    if( GLU_malloc( (void**)&gauge[i] , ALIGNMENT ,
+		    NCNC * sizeof( GLU_complex ) ) != 0 ) {
+      flag = flag + GLU_FAILURE ;
+    } else {
+      Sunitary_gen( gauge[i] , get_GLU_thread( ) ) ;
+    }
   }
 
-  gtransform( lat , (const GLU_complex **)gauge ) ; 
+  if( flag == GLU_SUCCESS ) {
+    gtransform( lat , (const GLU_complex **)gauge ) ; 
+  } else {
+    fprintf( stderr , "[RANDOM] Allocation failed \n" ) ;
+    flag = GLU_FAILURE ;
+  }
 
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) { 
@@ -85,14 +99,16 @@ random_gtrans( struct site *__restrict lat )
   }
   free( gauge ) ;
 
-  return ;
+  return flag ;
 }
 
 // randomly generate a new gauge transform slice
-void
+int
 random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   #pragma omp parallel for private(i)
@@ -100,15 +116,17 @@ random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge )
     Sunitary_gen( slice_gauge[i] , get_GLU_thread( ) ) ;
   }
   
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // perform a random transform of the gauge links
-void
+int
 random_transform( struct site *__restrict lat ,
 		  GLU_complex *__restrict *__restrict gauge )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   size_t i ; 
   #pragma omp parallel for private(i)
@@ -116,14 +134,16 @@ random_transform( struct site *__restrict lat ,
     Sunitary_gen( gauge[i] , get_GLU_thread( ) ) ;
   }
   gtransform( lat , (const GLU_complex **)gauge ) ; 
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // random gauge matrices
-void 
+int
 random_suNC( struct site *__restrict lat )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   // openmp does not play nice with RNG
@@ -135,7 +155,7 @@ random_suNC( struct site *__restrict lat )
       Sunitary_gen( lat[i].O[mu] , thread ) ;
     }
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 /// reunit two slices
diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index c3a34ab..b7d68ab 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -136,7 +136,9 @@ luxury_copy_fast( struct site *lat ,
     }
 
     // perform a random gauge transform
-    random_transform( lat_copy , gauge ) ;
+    if( random_transform( lat_copy , gauge ) == GLU_FAILURE ) {
+      continue ;
+    }
     // set the accuracy to be low
     const double tempacc = 1E-6 ;
     const double max = 1000 ;
@@ -255,10 +257,9 @@ grab_file( struct site *lat ,
     fclose( config ) ;
     return GLU_FAILURE ;
   } 
-  random_transform( lat , gauge ) ; 
   fclose( config ) ;
   // could reperform checksum calculations here ....
-  return GLU_SUCCESS ;
+  return random_transform( lat , gauge ) ;
 }
 
 // Landau gauge fixing routine uses callbacks
diff --git a/src/Headers/random_config.h b/src/Headers/random_config.h
index 535e513..6dd8cae 100755
--- a/src/Headers/random_config.h
+++ b/src/Headers/random_config.h
@@ -42,38 +42,38 @@ void
 latt_reunitU( struct site *__restrict lat ) ;
 
 /**
-   @fn void random_gtrans( struct site *__restrict lat )
+   @fn int random_gtrans( struct site *__restrict lat )
    @brief generates a random gauge transform on the field
    @param lat :: lattice gauge field
  */
-void 
+int
 random_gtrans( struct site *__restrict lat ) ;
 
 /**
-   @fn void random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge ) 
+   @fn int random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge ) 
    @brief create random gauge transformation on a time-slice
    @param slice_gauge :: gauge transform matrices on a time slice
  */
-void
+int
 random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge ) ;
 
 /**
-   @fn void random_transform( struct site *__restrict lat , GLU_complex *__restrict *__restrict gauge )
+   @fn int random_transform( struct site *__restrict lat , GLU_complex *__restrict *__restrict gauge )
    @brief compute a random gauge transform on the links.
    @param lat :: lattice gauge fields 
    @param gauge :: gauge transformation matrices
    the rationale for having this instead of calling latt_reunitU( struct site *lat ) is that if we already have the gauge transformation matrices malloced we save time by not creating and destroying another temporary
  **/
-void
+int
 random_transform( struct site *__restrict lat ,
 		  GLU_complex *__restrict *__restrict gauge ) ;
 
 /**
-   @fn void random_suNC( struct site *__restrict lat )
+   @fn int random_suNC( struct site *__restrict lat )
    @brief generates a random lattice gauge field
    @param lat :: lattice gauge field
  */
-void 
+int
 random_suNC( struct site *__restrict lat ) ;
 
 /**
diff --git a/src/Headers/wflowfuncs.h b/src/Headers/wflowfuncs.h
index 34809cc..a1ac196 100755
--- a/src/Headers/wflowfuncs.h
+++ b/src/Headers/wflowfuncs.h
@@ -96,15 +96,24 @@ void
 print_GG_info( void ) ;
 
 /**
-   @fn void scaleset( struct wfmeas *curr , const double W0 , const double T0 , const size_t count , const GLU_bool is_clover ) 
+   @fn struct wfmeas* allocate_meas( void )
+   @brief allocate a measurement, has to be called by every thread of the team
+   @return either every thread gets one or every thread gets NULL
+ */
+struct wfmeas*
+allocate_meas( void ) ;
+
+/**
+   @fn int scaleset( struct wfmeas *curr , const double W0 , const double T0 , const size_t count , const GLU_bool is_clover ) 
    @brief computes the flow in curr for T0 and W0
    @param curr :: measurement list
    @param T_0 :: wilson flow scale G(t) = W_0
    @param W_0 :: wilson flow scale t( dG(t)/dt ) = W_0
    @param count :: number of measurements made
    @param is_clover :: boolean plaquette is false
+   @return #GLU_FAILURE if the temporaries could not be allocated
  */
-void
+int
 scaleset( struct wfmeas *curr , 
 	  const double T_0 ,
 	  const double W_0 ,
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index a55c422..6668551 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -170,8 +170,7 @@ get_config_SUNC( FILE *__restrict CONFIG ,
     }
     return chksum ;
   case RANDOM_CONFIG :
-    random_suNC( lat ) ;
-    return GLU_SUCCESS ;
+    return random_suNC( lat ) ;
   case UNIT_GAUGE :
     trivial( lat ) ;
     return GLU_SUCCESS ;
diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..fcfd912 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -212,15 +212,17 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     fprintf( stderr , "[SMEARING] unrecognised smearing projection \n" ) ;
     return GLU_FAILURE ;
   }
+
+  int FLAG = GLU_SUCCESS ;
   
   // allocate temps
   struct wflow_temps WF ;
   if( allocate_WF( &WF , GLU_FALSE , GLU_TRUE ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
     goto memfree ;
   }
 
   const double inplaq = av_plaquette( lat ) ;
-  int FLAG = GLU_SUCCESS ;
   
 #pragma omp parallel
   {
@@ -229,9 +231,10 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     double new_plaq = inplaq ;
     double t = 0.0 ;
     size_t i ;
+    int flag = GLU_SUCCESS ;
     double delta_t = SIGN * Latt.sm_alpha[0] ;
 
-    curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+    if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
     update_meas_list( head , curr , WF.red ,
 		      new_plaq , t , delta_t , 0.0 , lat ) ;
     head = curr ;
@@ -251,7 +254,11 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     // perform two-step adaptive
     if( twostep_adaptive( lat , WF , &delta_t , &errmax , &new_plaq ,
 			  t , yscal , SM_TYPE , project ) == GLU_FAILURE ) {
-      FLAG = GLU_FAILURE ;
+      #pragma omp master
+      {
+	fprintf( stderr , "[WFLOW] could not adapt the step size\n" ) ;
+      }
+      flag = GLU_FAILURE ;
       count = smiters ;
     }
     
@@ -277,11 +284,11 @@ flow_adaptive_RK3( struct site *__restrict lat ,
 	fprintf( stderr , "[WFLOW] No update made delta_t :: %1.5e \n"
 		 "Leaving ... \n" , delta_t ) ;
       }
-      FLAG = GLU_FAILURE ;
+      flag = GLU_FAILURE ;
     }
     
     if( t > WFLOW_MEAS_START ) {
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			errmax*ADAPTIVE_EPS , lat ) ;
@@ -307,7 +314,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
       step_distance( lat , WF , delta_t , SM_TYPE , project ) ;
       
       new_plaq = get_plaq_th( lat , WF ) ;
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t = t+delta_t , delta_t ,
 			errmax*ADAPTIVE_EPS , lat ) ;
@@ -333,7 +340,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
       
       step_distance( lat , WF , delta_t , SM_TYPE , project ) ;
 
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
       new_plaq = get_plaq_th( lat , WF ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t += delta_t , delta_t ,
@@ -363,7 +370,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     if( ( wapprox < W0_STOP*1.5 ) &&
 	( count < smiters ) &&
 	( t < WFLOW_TIME_STOP ) &&
-	FLAG == GLU_SUCCESS ) goto top ; 
+	flag == GLU_SUCCESS ) goto top ; 
 
     // if we have flowed past the place that we are meant to stop at we
     // step back a little way
@@ -371,7 +378,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
       delta_t = WFLOW_TIME_STOP - t ;
       step_distance( lat , WF , delta_t , SM_TYPE , project ) ;
       new_plaq = get_plaq_th( lat , WF ) ;
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t += delta_t , delta_t ,
 			errmax*ADAPTIVE_EPS , lat ) ;
@@ -388,16 +395,30 @@ flow_adaptive_RK3( struct site *__restrict lat ,
 #ifndef WFLOW_TIME_ONLY
     if( ( fabs( curr -> time - WFLOW_TIME_STOP ) > PREC_TOL ) && 
 	meas_count > 0 ) {
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_TRUE ) ;
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_FALSE ) ;
+      #pragma omp master
+      {
+	// set the scale at t_0 and w_0
+	if( scaleset( curr , T0_STOP , W0_STOP , meas_count ,
+		      GLU_TRUE ) == GLU_FAILURE ||
+	    scaleset( curr , T0_STOP , W0_STOP , meas_count ,
+		      GLU_FALSE ) == GLU_FAILURE ) {
+	  #pragma omp atomic write
+	  FLAG = GLU_FAILURE ;
+	}
+      }
     }
 #endif
     
     // and free the list
+  clean :
     while( ( curr = head ) != NULL ) {
       head = head -> next ; 
       free( curr ) ;
     }
+    if( flag == GLU_FAILURE ) {
+      #pragma omp atomic write
+      FLAG = GLU_FAILURE ;
+    }
   }
   
  memfree :
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..06a618c 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -48,7 +48,11 @@ flow_RK3( struct site *__restrict lat ,
 
   // Set up the temporary fields ...
   struct wflow_temps WF ;
-  if( allocate_WF( &WF , memcheap , GLU_FALSE ) == GLU_FAILURE ) goto memfree ;
+  int FLAG = GLU_SUCCESS ;
+  if( allocate_WF( &WF , memcheap , GLU_FALSE ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   void (*f) ( struct site *__restrict lat ,
 	      struct wflow_temps WF ,
@@ -81,7 +85,8 @@ flow_RK3( struct site *__restrict lat ,
     break ;
   default :
     fprintf( stderr , "[SMEARING] unrecognised smearing projection \n" ) ;
-    return GLU_FAILURE ;
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
   }
 
   const double inplaq = av_plaquette( lat ) ;
@@ -91,9 +96,10 @@ flow_RK3( struct site *__restrict lat ,
     // counters for the derivative ...
     double flow = 0. , flow_next = 0. , t = 0.0 , wapprox = 0.0 , new_plaq = inplaq ;
     size_t count = 0 , meas_count = 0 ;
+    int flag = GLU_SUCCESS ;
     
     struct wfmeas *head = NULL , *curr ;
-    curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+    if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
     update_meas_list( head , curr , WF.red ,
 		      new_plaq , t , delta_t ,
 		      err_est , lat ) ;
@@ -116,7 +122,7 @@ flow_RK3( struct site *__restrict lat ,
     
     // update the linked list
     if( t >= WFLOW_MEAS_START ) {
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
       // compute plaquette
       av_plaquette_th( WF.red , lat ) ;
       size_t k ;
@@ -147,7 +153,7 @@ flow_RK3( struct site *__restrict lat ,
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
       // update the linked list
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
@@ -163,22 +169,35 @@ flow_RK3( struct site *__restrict lat ,
     if( ( fabs( curr -> time - WFLOW_TIME_STOP ) > PREC_TOL ) &&
 	count <= smiters &&
 	meas_count > 0 ) {
-      // set the scale at t_0 and w_0
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_TRUE ) ;
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_FALSE ) ;
+      #pragma omp master
+      {
+	// set the scale at t_0 and w_0
+	if( scaleset( curr , T0_STOP , W0_STOP , meas_count ,
+		      GLU_TRUE ) == GLU_FAILURE ||
+	    scaleset( curr , T0_STOP , W0_STOP , meas_count ,
+		      GLU_FALSE ) == GLU_FAILURE ) {
+	  #pragma omp atomic write
+	  FLAG = GLU_FAILURE ;
+	}
+      }
     }
 #endif
 
     // free the list
+  clean :
     while( ( curr = head ) != NULL ) {
       head = head -> next ; 
       free( curr ) ;
     }
+    if( flag == GLU_FAILURE ) {
+      #pragma omp atomic write
+      FLAG = GLU_FAILURE ;
+    }
   }
 
  memfree : 
   
   free_WF( &WF , memcheap , GLU_FALSE ) ;
    
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 464ee55..c531206 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -323,6 +323,32 @@ evaluate_scale( double *der ,
   return solve_spline( x , meas , der , scale , change_up ) ;
 }
 
+// some thread has not been able to allocate its measurement
+static int meas_failed = 0 ;
+
+// allocate a measurement for each thread, or for none of them
+struct wfmeas *
+allocate_meas( void )
+{
+  int failed ;
+  struct wfmeas *meas = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+  if( meas == NULL ) {
+    fprintf( stderr , "[WFLOW] measurement allocation failure\n" ) ;
+    #pragma omp atomic write
+    meas_failed = 1 ;
+  }
+  {
+    #pragma omp barrier
+  }
+  #pragma omp atomic read
+  failed = meas_failed ;
+  if( failed != 0 ) {
+    free( meas ) ;
+    return NULL ;
+  }
+  return meas ;
+}
+
 // allocate WF temporaries
 int
 allocate_WF( struct wflow_temps *WF ,
@@ -332,6 +358,7 @@ allocate_WF( struct wflow_temps *WF ,
   WF->lat2 = NULL ; WF->lat3 = NULL ; WF->lat4 = NULL ; WF->Z = NULL ;
   WF->lat_two = NULL ; WF->red = NULL ;
   int FLAG = GLU_SUCCESS ;
+  meas_failed = 0 ;
   if( adaptive == GLU_TRUE ) {
     if( ( WF->lat_two = allocate_lat( ) ) == NULL ) {
       fprintf( stderr , "[WFLOW] adaptive allocation failure \n" ) ;
@@ -447,6 +474,11 @@ scaleset( struct wfmeas *curr ,
   // error handling
   double t0 = -1 , w0 = -1 ;
   int flag = GLU_SUCCESS ;
+  if( GT == NULL || time == NULL || der == NULL ) {
+    fprintf( stderr , "[WFLOW] scale setting allocation failure\n" ) ;
+    flag = GLU_FAILURE ;
+    goto free ;
+  }
   char clovstr[ 64 ] = "Plaq" ;
   if( is_clover == GLU_TRUE ) {
     sprintf( clovstr , "Clover" ) ;
@@ -470,7 +502,6 @@ scaleset( struct wfmeas *curr ,
     {
       fprintf( stderr , "[WFLOW] cannot compute %s t0 as we do not bracket GT\n" , clovstr ) ;
     }
-    flag = GLU_FAILURE ;
     goto free ;
   }
   #pragma omp master
@@ -489,7 +520,6 @@ scaleset( struct wfmeas *curr ,
     {
       fprintf( stderr , "[WFLOW] cannot compute %s w0 as we do not bracket WT\n" , clovstr ) ;
     }
-    flag = GLU_FAILURE ;
     goto free ;
   }
   #pragma omp master
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 5a8a6fa..1583446 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -238,7 +238,10 @@ read_and_check( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE && random_gtrans( lat ) == GLU_FAILURE ) {
+    free_lat( lat ) ;
+    return GLU_FAILURE ;
+  }
 
   gauge( lat ) ;
 
@@ -286,7 +289,10 @@ read_and_fix( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE && random_gtrans( lat ) == GLU_FAILURE ) {
+    free_lat( lat ) ;
+    return GLU_FAILURE ;
+  }
 
   FLAG = GF_wrap( infile , lat , GFINFO ) ;
 
@@ -316,7 +322,10 @@ read_and_smear( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE && random_gtrans( lat ) == GLU_FAILURE ) {
+    free_lat( lat ) ;
+    return GLU_FAILURE ;
+  }
 
   FLAG = SM_wrap_struct( lat , SMINFO ) ;
 
@@ -345,7 +354,10 @@ read_and_U1( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE && random_gtrans( lat ) == GLU_FAILURE ) {
+    free_lat( lat ) ;
+    return GLU_FAILURE ;
+  }
 
   FLAG = suNC_cross_u1( lat , U1INFO ) ;
 
-- 
2.43.0


From fe36501df299504275e70979f072e24e197f96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 25/51] fix: N>3 logarithm and exponential tables: lazily
 allocated inside parallel regions, out of bounds, unchecked

---
 src/Matrix_Ops/U_Nops.c      | 32 ++++++------------------
 src/Matrix_Ops/expMat.c      | 13 +++-------
 src/Matrix_Ops/taylor_logs.c | 47 ++++++++----------------------------
 3 files changed, 21 insertions(+), 71 deletions(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..795677d 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -452,13 +452,7 @@ M_times_c( GLU_complex M[ NCNC ] ,
   return ;
 }
 
-// nodes for AntiHermitian_proj linked lists
-struct node {
-  GLU_bool squareable ;
-  struct node *next ;
-} ;
-
-// matrix power routine using a simple linked list structure
+// matrix power routine by repeated squaring
 void
 matrix_power( GLU_complex a[ NCNC ] , 
 	      const GLU_complex b[ NCNC ] , 
@@ -468,40 +462,30 @@ matrix_power( GLU_complex a[ NCNC ] ,
   else if( n == 1 ) { equiv( a , b ) ; return ; } 
   else if( n == 2 ) { multab( a , b , b ) ; return ; } 
   else {
-    // generate our linked list
-    struct node *head = NULL , *curr ;
-    size_t nn = n , length = 0 , i ;
+    // list of the operations, at most two per bit of n
+    GLU_bool squareable[ 16*sizeof( int ) ] ;
+    size_t nn = n , length = 0 ;
     // compute the list, and its length
     while( nn > 2 ) {
-      curr = (struct node*)malloc( sizeof( struct node ) ) ;
       if( nn%2 == 0 ) {
 	nn = nn >> 1 ;
-	curr -> squareable = GLU_TRUE ;
+	squareable[ length ] = GLU_TRUE ;
       } else {
 	nn -- ;
-	curr -> squareable = GLU_FALSE ;
+	squareable[ length ] = GLU_FALSE ;
       }
       length ++ ;
-      curr -> next = head ;
-      head = curr ;
     }
-    curr = head ;
     // go back through the list performing squarings if possible
     GLU_complex tmp[ NCNC ] GLUalign ;
     multab( a , b , b ) ; 
-    for( i = 0 ; i < length ; i++ ) {
-      if( curr -> squareable != GLU_FALSE ) {
+    while( length-- > 0 ) {
+      if( squareable[ length ] != GLU_FALSE ) {
 	multab( tmp , a , a ) ; 
       } else {
 	multab( tmp , a , b ) ;
       }
       equiv( a , tmp ) ;
-      curr = curr -> next ;
-    }
-    // clean up the list, removing all the allocs
-    while( ( curr = head ) != NULL ) {
-      head = head -> next ;
-      free( curr ) ;
     }
   }
   return ;
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..acca38b 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -49,9 +49,9 @@
 // LUT for the factorials
 #ifdef USE_PADE
 #define PADE_ORDER (4)
-static GLU_real *pade ;
+static GLU_real pade[ PADE_ORDER+1 ] ;
 #else
-static GLU_real *factorial ;
+static GLU_real factorial[ MAX_FACTORIAL ] ;
 #endif
 
 // initialise the factorial in Mainfile.c
@@ -60,14 +60,12 @@ init_factorial( void )
 {
 #ifdef USE_PADE
   // mix of 4,4 pade and 3 rootings is nice combination
-  pade = ( GLU_real* ) malloc( (PADE_ORDER+1) * sizeof( GLU_real ) ) ;
   pade[ 0 ] = 1.0 ;
   pade[ 1 ] = 1.0/2.0 ;
   pade[ 2 ] = 3.0/28.0 ;
   pade[ 3 ] = 1.0/84.0 ;
   pade[ 4 ] = 1.0/1680.0 ;
 #else
-  factorial = ( GLU_real* ) malloc ( MAX_FACTORIAL * sizeof( GLU_real ) ) ;
   factorial[ 0 ] = 1.0 ;
   factorial[ 1 ] = 1.0 ;
   factorial[ 2 ] = 0.5 ;
@@ -98,12 +96,7 @@ init_factorial( void )
 void
 free_factorial( void )
 {
-#ifdef USE_PADE
-  free( pade ) ;
-#else
-  free( factorial ) ;
-#endif
-  return ;
+  return ; // the tables are static
 }
 
 #ifdef USE_PADE
diff --git a/src/Matrix_Ops/taylor_logs.c b/src/Matrix_Ops/taylor_logs.c
index 89dd8d0..cdf5e95 100755
--- a/src/Matrix_Ops/taylor_logs.c
+++ b/src/Matrix_Ops/taylor_logs.c
@@ -34,17 +34,12 @@
  */
 static const size_t NMAX = 25 ; // set this quite high to give it a chance
 
-/**
-   @param TAYLOR_SET
-   @brief have we set the Taylor expansion coefficients?
- */
-static int TAYLOR_SET ;
-
-/**
-   @param fact
-   @breif Taylor expansion coefficients precomputes
- */
-static double *fact ;
+// Taylor expansion coefficients
+static inline double
+fact( const size_t n )
+{
+  return 1.0 / ( 2.0 * (double)n - 1.0 ) ;
+}
 
 // Computes the square-root of the matrix A
 //  using a denman-beavers iteration routine
@@ -152,23 +147,6 @@ denman_rootZ( GLU_complex *__restrict Z )
   return GLU_SUCCESS ;
 }
 
-// precomputation, this should be put in Mainfile.c
-static void
-precompute_taylor_factors( void ) 
-{
-  // make sure this isn't getting overwritten by different threads
-#pragma omp single
-  {
-    fact = malloc( NMAX * sizeof( double ) ) ;
-    size_t n ;
-    for( n = 0 ; n < NMAX ; n++ ) {
-      fact[ n ] = 1.0 / (double)( 2 * ( n ) - 1 ) ;
-    }
-    TAYLOR_SET = GLU_TRUE ;
-  }
-  return ;
-}
-
 static int
 log_asinh( GLU_complex *__restrict Q , 
 	   const GLU_complex *__restrict U ,
@@ -323,8 +301,6 @@ brute_force_log( GLU_complex *Q ,
 		 const GLU_complex *U ,
 		 const size_t NROOTS )
 {
-  // check to see if we can do precomputations
-  if( TAYLOR_SET == GLU_FALSE ) { precompute_taylor_factors( ) ; } 
 
 #if NC < 10
   const double SCALING = pow( 2.0 , ( NROOTS ) ) ;
@@ -391,7 +367,7 @@ brute_force_log( GLU_complex *Q ,
     // power of the yy matrix
     matrix_power( pert , yy , n + 1 ) ;
     for( j = 0 ; j < NCNC ; j++ ) { 
-      pert[ j ] *= fact[ n + 1 ] ;
+      pert[ j ] *= fact( n + 1 ) ;
     }
     // multiply finally by the parameter "y"
     multab_atomic_left( pert , y ) ;
@@ -414,7 +390,7 @@ brute_force_log( GLU_complex *Q ,
   // compute the next order term in the series in step Q is the n+1 series approx
   //double fact = 1.0 / ( 2. * (n+1) - 1.0 ) ;
   for( j = 0 ; j < NCNC ; j++ ) { 
-    Q[j] = yy[j] * fact[ n+1 ] ;
+    Q[j] = yy[j] * fact( n+1 ) ;
   }
 
   // Now we have an estimate for when the last term in the series is negligible
@@ -423,7 +399,7 @@ brute_force_log( GLU_complex *Q ,
   for ( i = n ; i > 1 ; i-- ) {
     //fact = 1.0 / ( 2. * i - 1.0 ) ;
     for( j = 0 ; j < NC ; j++ ) { 
-      Q[j*(NC+1)]  += fact[ i ] ; 
+      Q[j*(NC+1)]  += fact( i ) ; 
     }
     //xx = yy * ( fact + xx ) ;
     multab_atomic_left( Q , yy ) ;
@@ -463,10 +439,7 @@ brute_force_log( GLU_complex *Q ,
 void
 free_taylors( void )
 {
-  if( TAYLOR_SET == GLU_TRUE ) {
-    free( fact ) ;
-  }
-  return ;
+  return ; // the coefficients need no storage
 }
 
 // rescaled Denman-Beavers projection, used in the n-APE projection
-- 
2.43.0


From 84751ff2a8dc2ddd5de2c9f50472f31d6483d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:36 +0000
Subject: [PATCH 26/51] fix: U(1) topological observables: allocations, charge
 outside four dimensions

---
 src/Headers/U1_obs.h    |  4 ++--
 src/Headers/U1_top.h    |  4 ++--
 src/U1/SUNCxU1_config.c |  2 +-
 src/U1/U1_obs.c         |  9 ++++++---
 src/U1/U1_top.c         | 17 +++++++++++++----
 5 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/Headers/U1_obs.h b/src/Headers/U1_obs.h
index ea02d52..cf561a6 100755
--- a/src/Headers/U1_obs.h
+++ b/src/Headers/U1_obs.h
@@ -24,7 +24,7 @@
 #define GLU_U1_OPS_H
 
 /**
-   @fn void compute_U1_obs( const GLU_complex **U , const struct site *lat , const U1_meas meas )
+   @fn int compute_U1_obs( const GLU_complex **U , const struct site *lat , const U1_meas meas )
    @brief this function is a wrapper for the U1 measurements
    @param U :: the U(1) non-compact field
    @param lat :: the lattice gauge field used for look up of neighbors
@@ -34,7 +34,7 @@
    if U1_TOPOLOGICAL is defined it outputs the number of monopoles
    and the "dirac_sheet".
  **/
-void
+int
 compute_U1_obs( const GLU_complex **U ,
 		const struct site *lat ,
 		const U1_meas meas ) ;
diff --git a/src/Headers/U1_top.h b/src/Headers/U1_top.h
index 73f1446..03e1d1c 100755
--- a/src/Headers/U1_top.h
+++ b/src/Headers/U1_top.h
@@ -24,14 +24,14 @@
 #define GLU_U1_TOP_H
 
 /**
-   @fn void U1_topological( int *monopole , int *d_sheet , double *qtop , const GLU_complex **O  )
+   @fn int U1_topological( int *monopole , int *d_sheet , double *qtop , const GLU_complex **O  )
    @brief measures some of the more elementary topological defects from the noncompact U(1) gauge field
    @param monopole :: number of monopoles
    @param d_sheet :: the "dirac sheet", the sum total of the non-zero windings around the elementary plaquette
    @param qtop :: the simplest measure of the U(1) naive gauge topological charge
    @param O :: the noncompact U(1) gauge field 
  */
-void 
+int
 U1_topological( int *monopole , 
 		int *d_sheet , 
 		double *qtop ,
diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index 2352bcb..de60b20 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -223,7 +223,7 @@ suNC_cross_u1( struct site *lat ,
   
   // compute some U1 observables why not ?
   start_timer() ;
-  compute_U1_obs( (const GLU_complex**)FFTW.out , lat , U1INFO.meas ) ;
+  FLAG = compute_U1_obs( (const GLU_complex**)FFTW.out , lat , U1INFO.meas ) ;
   print_time() ;
 
   fprintf( stdout , "[U1] U1 Memory Cleanup ....\n" ) ;
diff --git a/src/U1/U1_obs.c b/src/U1/U1_obs.c
index 732bdcc..ffed4a0 100755
--- a/src/U1/U1_obs.c
+++ b/src/U1/U1_obs.c
@@ -115,7 +115,7 @@ normU( const GLU_complex **U )
 }
 
 // wrapper for the U1 configurations
-void
+int
 compute_U1_obs( const GLU_complex **U ,
 		const struct site *lat ,
 		const U1_meas meas )
@@ -138,10 +138,13 @@ compute_U1_obs( const GLU_complex **U ,
   } else if( meas == U1_TOPOLOGICAL ) {
     double qtop ;
     int monopole , dirac_sheet ;
-    U1_topological( &monopole , &dirac_sheet , &qtop , (const GLU_complex**)U ) ;
+    if( U1_topological( &monopole , &dirac_sheet , &qtop , 
+			(const GLU_complex**)U ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "\n[U(1)] Topological :: [Monopole] %d"
 	     "[Dirac_Sheet] %d [QTOP] %g \n" , monopole , dirac_sheet , qtop ) ;
   }
 
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index 401f1e8..f84720f 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -134,6 +134,9 @@ dirac( int **M ,
 static double 
 non_Qtop( const GLU_complex **O )
 {
+#if ND != 4
+  return 0. ; // only defined in four dimensions
+#else
   double charge = 0.0 ;
   size_t i;
 #pragma omp parallel for private(i) reduction(+:charge)
@@ -146,19 +149,25 @@ non_Qtop( const GLU_complex **O )
     charge = charge + (double)qtemp ;
   }
   return charge * 0.001583143494411527678811 ;
+#endif
 }
 
 // compute all of the topological measures here
-void 
+int
 U1_topological( int *monopole , 
 		int *d_sheet , 
 		double *qtop , 
 		const GLU_complex **O  )
 {
-  int **M = calloc( ND , sizeof( int * ) ) ;
+  int *M[ ND ] , FLAG = GLU_SUCCESS ;
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     M[ mu ] = ( int* )calloc( LVOLUME , sizeof( int ) ) ; 
+    if( M[ mu ] == NULL ) FLAG = GLU_FAILURE ;
+  }
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "[U(1)] could not allocate the Dirac observable\n" ) ;
+    goto memfree ;
   }
 
   // initialise the dirac measurement
@@ -169,10 +178,10 @@ U1_topological( int *monopole ,
   *d_sheet = dirac_sheet( O ) ;
   *qtop = non_Qtop( O ) ;
 
+ memfree :
   for( mu = 0 ; mu < ND ; mu++ ) {
     free( M[ mu ] ) ;
   }
-  free( M ) ;
 
-  return ;
+  return FLAG ;
 }
-- 
2.43.0


From 956f3b7d504717e738e966ee96cde687aff23cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 27/51] fix: refusals for lack of memory and the charge
 correlator setup say so on stderr

---
 src/Field/Qcorr.c        |  9 +++++----
 src/Utils/GLU_memcheck.c | 10 +++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index a12af89..e98e696 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -134,10 +134,11 @@ compute_Qcorr( struct site *__restrict lat ,
   double *qcorr = malloc( size[0] * sizeof( double ) ) ; 
 
   // logic to fail
-  if( str == NULL || Ap == NULL ) goto memfree ;
-  if( list == NULL ) goto memfree ;
-  if( qcorr == NULL ) goto memfree ;
-  if( FFTW.in == NULL ) goto memfree ;
+  if( str == NULL || Ap == NULL || list == NULL || 
+      qcorr == NULL || FFTW.in == NULL ) {
+    fprintf( stderr , "[QTOP] correlator setup failed, nothing measured\n" ) ;
+    goto memfree ;
+  }
 #ifdef HAVE_FFTW3_H
   if( planned == GLU_FAILURE ) goto memfree ;
 #endif
diff --git a/src/Utils/GLU_memcheck.c b/src/Utils/GLU_memcheck.c
index 38a9774..66f55ec 100755
--- a/src/Utils/GLU_memcheck.c
+++ b/src/Utils/GLU_memcheck.c
@@ -82,9 +82,9 @@ have_memory_Cgf( void )
     #endif
     const double MEM = gauge_fields + ( 3 * NCNC + HERMSIZE ) * sublat_element ;
     if( MEM > free_memory ) {
-      fprintf( stdout , "[GF] Avail :: %f    Required :: %f \n" , 
+      fprintf( stderr , "[GF] Avail :: %f    Required :: %f \n" , 
 	       free_memory , MEM ) ;
-      fprintf( stdout , "[GF] Not enough memory for Coulomb"
+      fprintf( stderr , "[GF] Not enough memory for Coulomb"
 	       "gauge fixing ... Leaving\n" ) ;
       GF = GLU_FAILURE ;
     }
@@ -102,7 +102,7 @@ have_memory_gauge( void )
   if( GFIELDS == -1 ) {
     check_mem( ) ;
     if( gauge_fields > MemTotal * GB ) {
-      fprintf( stdout , "[GAUGE] Cannot allocate gauge fields "
+      fprintf( stderr , "[GAUGE] Cannot allocate gauge fields "
 	       "[AVAIL] %f [REQUESTED] %f \n" ,
 	       MemTotal * GB , gauge_fields ) ;
       gfields = GLU_FAILURE ;
@@ -197,7 +197,7 @@ have_memory_Lgf( void )
       fprintf( stdout , "[GF] Running our fastest Landau Gauge Fixing "
 	       "routine .. \n\n" ) ; 
     } else {
-      fprintf( stdout , "[GF] Sorry, not enough memory to run Landau Gauge "
+      fprintf( stderr , "[GF] Sorry, not enough memory to run Landau Gauge "
 	       "Fixing ... \n\n" ) ;
       GF = GLU_FAILURE ;
     }
@@ -304,7 +304,7 @@ have_memory_wf( const struct sm_info SMINFO )
     if( SMINFO.dir == ALL_DIRECTIONS )  {
       if( expensive_more > free_memory ) {
 	if( expensive_less > free_memory ) {
-	  fprintf( stdout , "[WFLOW] Cannot use either Wilson Flow "
+	  fprintf( stderr , "[WFLOW] Cannot use either Wilson Flow "
 		   "routine .. \n\n" ) ; 
 	  fourDdef = GLU_FAILURE ;
 	} else {
-- 
2.43.0


From f0e936bef40992e34f07e0ac6835812a742ba928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 28/51] fix: temporal and total plaquette normalisation outside
 four dimensions

---
 src/Field/plaqs_links.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..f866783 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -234,8 +234,9 @@ all_plaquettes( const struct site *__restrict lat ,
     tplaq = tplaq + (double)p ;
   }
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+  // there are (ND-1)(ND-2)/2 spatial planes and ND-1 temporal ones
+  *t_plaq  = tplaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  return ( ( ND - 2 ) * ( *sp_plaq ) + 2.0 * ( *t_plaq ) ) / ND ; 
 }
 
 // average plaquette
@@ -339,7 +340,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
-- 
2.43.0


From 2368e57c6789d136652f20b0a1e4dca73108d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 29/51] fix: topological charge density outside four dimensions
 was uninitialised memory

---
 src/Field/clover.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Field/clover.c b/src/Field/clover.c
index 6cec5a5..db12930 100755
--- a/src/Field/clover.c
+++ b/src/Field/clover.c
@@ -926,6 +926,8 @@ compute_q( GLU_complex q[ NCNC ] ,
   #endif
   // compute the product of G_MUNU_1 with G_MUNU_2
   multab( q , GMUNU_1 , GMUNU_2 ) ;
+#else
+  zero_mat( q ) ; // there is no charge outside of four dimensions
 #endif
   return ;
 }
-- 
2.43.0


From 31a41327f60566951d523e624c614f40a7044305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 30/51] fix: reported plaquettes of the update and the flow
 were mis-normalised outside four dimensions

---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 2 +-
 src/Update/KPHB.c         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index fcfd912..22c67a6 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0*new_plaq/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 06a618c..b185250 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -130,7 +130,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 19a9426..1a30bc0 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -63,7 +63,7 @@ perform_measurements( double *PLAQred ,
   {
     // write out the plaquette
     fprintf( stdout , "[UPDATE] %zu :: {P} %1.12f \n" , 
-	     conf_idx , pl/( NC*(ND-1)*(ND-2)*LVOLUME ) ) ;
+	     conf_idx , 2.0*pl/( NC*ND*(ND-1)*LVOLUME ) ) ;
   }
 
   // icc really hates this for some reason
-- 
2.43.0


From 07f7baf04ce2a31edcb2aa8af071b20801f3a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 31/51] fix: the WELL_512 generator option did not link

---
 src/Utils/par_rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 4ee6446..c7abb86 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -212,7 +212,7 @@ par_rng_dbl( const uint32_t thread )
 #elif (defined MWC_1038_RNG)
   return par_MWC_1038_dbl( thread ) ;
 #elif (defined WELL_512_RNG)
-  return par_Well_512_dbl( thread ) ;
+  return par_WELL_512_dbl( thread ) ;
 #else
   return par_MWC_4096_dbl( thread ) ;
 #endif
-- 
2.43.0


From 7e48ab656c3619c5c77d5ba41755f90cbfd1c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 32/51] fix: failed allocation of the SU(2) subgroup indices
 crashed

---
 src/Geometry/init.c         | 5 ++---
 src/Headers/SU2_rotate.h    | 5 +++--
 src/Headers/init.h          | 5 +++--
 src/Update/SU2_rotate.c     | 8 ++++++--
 src/Update/SU2_rotate_SSE.c | 8 ++++++--
 src/Wrappers/GLUlib_wrap.c  | 5 ++++-
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/Geometry/init.c b/src/Geometry/init.c
index d85fd70..f042af8 100644
--- a/src/Geometry/init.c
+++ b/src/Geometry/init.c
@@ -42,7 +42,7 @@ init_navig( struct site *__restrict lat )
 }
 
 // initialise the lattice information stored in Latt
-void
+int
 init_latt( void )
 {
   // tell us our gauge group
@@ -78,8 +78,7 @@ init_latt( void )
   fprintf( stdout , "[INIT] using %u thread(s) \n" , Latt.Nthreads ) ;
   // compute su2 indices
   fprintf( stdout , "[INIT] allocating su(2) subgroup indices\n" ) ;
-  compute_pertinent_indices() ;
-  return ;
+  return compute_pertinent_indices() ;
 }
 
 // free anything allocated in the latt struct
diff --git a/src/Headers/SU2_rotate.h b/src/Headers/SU2_rotate.h
index 981c43b..e056f14 100755
--- a/src/Headers/SU2_rotate.h
+++ b/src/Headers/SU2_rotate.h
@@ -24,13 +24,14 @@
 #define SU2_ROTATE_H
 
 /**
-   @fn void compute_pertinent_indices( void )
+   @fn int compute_pertinent_indices( void )
    @brief computes the various su2 subgoup indices of our NCxNC matrix
    @warning allocates memory
+   @return #GLU_SUCCESS or #GLU_FAILURE
 
    I would like to thank Chroma, and in particular Edwards for this code.
  */
-void
+int
 compute_pertinent_indices( void ) ;
 
 /**
diff --git a/src/Headers/init.h b/src/Headers/init.h
index 1e459fa..ff0a6ea 100755
--- a/src/Headers/init.h
+++ b/src/Headers/init.h
@@ -31,11 +31,12 @@ void
 free_latt( void ) ;
 
 /**
-   @fn void init_latt( void )
+   @fn int init_latt( void )
    @brief initialise vital constants
    Inits the constants #LSQ, #LCU and #LVOLUME
+   @return #GLU_SUCCESS or #GLU_FAILURE
  */
-void
+int
 init_latt( void ) ;
 
 /**
diff --git a/src/Update/SU2_rotate.c b/src/Update/SU2_rotate.c
index f34f5a8..fa8d6b3 100644
--- a/src/Update/SU2_rotate.c
+++ b/src/Update/SU2_rotate.c
@@ -25,10 +25,14 @@
 #if !( defined HAVE_IMMINTRIN_H ) || ( defined SINGLE_PREC )
 
 // compute the relevant su2 indices IIRC shamelessly stolen from chroma
-void
+int
 compute_pertinent_indices( void )
 {
   Latt.su2_data = malloc( NSU2SUBGROUPS * sizeof( struct su2_subgroups ) ) ;
+  if( Latt.su2_data == NULL ) {
+    fprintf( stderr , "[INIT] SU(2) subgroup indices allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
   size_t su2_index , i1 , i2 ;
   for( su2_index = 0 ; su2_index < NSU2SUBGROUPS ; su2_index ++ ) {
     size_t found = 0 , del_i = 0 , index = 0 ;
@@ -48,7 +52,7 @@ compute_pertinent_indices( void )
     Latt.su2_data[ su2_index ].idx_c = i1 + NC * i2 ;
     Latt.su2_data[ su2_index ].idx_d = i2 + NC * i2 ;
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // free the struct
diff --git a/src/Update/SU2_rotate_SSE.c b/src/Update/SU2_rotate_SSE.c
index 57cd7f2..95321e4 100644
--- a/src/Update/SU2_rotate_SSE.c
+++ b/src/Update/SU2_rotate_SSE.c
@@ -29,10 +29,14 @@
 #include "SSE2_OPS.h"
 
 // compute the relevant su2 indices IIRC shamelessly stolen from chroma
-void
+int
 compute_pertinent_indices( void )
 {
   Latt.su2_data = malloc( NSU2SUBGROUPS * sizeof( struct su2_subgroups ) ) ;
+  if( Latt.su2_data == NULL ) {
+    fprintf( stderr , "[INIT] SU(2) subgroup indices allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
   size_t su2_index , i1 , i2 ;
   for( su2_index = 0 ; su2_index < NSU2SUBGROUPS ; su2_index ++ ) {
     size_t found = 0 , del_i = 0 , index = 0 ;
@@ -60,7 +64,7 @@ compute_pertinent_indices( void )
 	    Latt.su2_data[ su2_index ].idx_d ) ;
 #endif
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // free the struct
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 1583446..9a88fea 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -111,7 +111,10 @@ read_file( struct head_data *HEAD_DATA ,
   }
 
   // initialise geometry so that we can use LVOLUME and stuff
-  init_latt( ) ;
+  if( init_latt( ) == GLU_FAILURE ) {
+    if( infile != NULL ) { fclose( infile ) ; }
+    return NULL ;
+  }
 
   // check for having enough memory for the gauge field
   if( have_memory_gauge( ) == GLU_FAILURE ) {
-- 
2.43.0


From 15f7faf142da6bb5f48d2a4bc39b33ced801690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:40 +0000
Subject: [PATCH 33/51] fix: silent failures of the static potential, freeing
 unset Coulomb temporaries

---
 src/Field/POLY.c   | 6 +++++-
 src/Gfix/CGalloc.c | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index 0a68f48..052c374 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -330,7 +330,10 @@ Coul_staticpot( struct site *lat ,
   const size_t T = CUTINFO.max_t ;
 
   // leave if the loop arguments make no sense
-  if( T < 1 || LVOLUME < 1 ) return GLU_FAILURE ;
+  if( T < 1 || LVOLUME < 1 ) {
+    fprintf( stderr , "[STATIC-POTENTIAL] T = %zu makes no sense\n" , T ) ;
+    return GLU_FAILURE ;
+  }
 
   fprintf( stdout , "\n[STATIC-POTENTIAL] measurements at T = %zu\n" , T ) ;
 
@@ -341,6 +344,7 @@ Coul_staticpot( struct site *lat ,
   // compute all of the poly loops, lattice-wide
   GLU_complex **poly = NULL ;
   if( GLU_malloc( (void**)&poly , 16 , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
+    fprintf( stderr , "[STATIC-POTENTIAL] Polyakov loop allocation failure\n" ) ;
     return GLU_FAILURE ;
   }
 
diff --git a/src/Gfix/CGalloc.c b/src/Gfix/CGalloc.c
index d49f83a..7b6830a 100644
--- a/src/Gfix/CGalloc.c
+++ b/src/Gfix/CGalloc.c
@@ -47,6 +47,9 @@ allocate_temp_cg( struct gauges *G ,
   if( GLU_malloc( (void**)&G->g      , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ||
       GLU_malloc( (void**)&G->g_end  , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ||
       GLU_malloc( (void**)&G->g_up   , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ) {
+    // what they point to is not set yet
+    free( G -> g ) ; free( G -> g_end ) ; free( G -> g_up ) ;
+    G -> g = NULL ; G -> g_end = NULL ; G -> g_up = NULL ;
     FLAG = GLU_TRUE ; goto end ;
   }
   memset( G -> g     , 0 , LCU * sizeof( GLU_complex* ) ) ;
-- 
2.43.0


From fc1bb3d550faa939b09e2b4bcc5c73aaa37a1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:33 +0000
Subject: [PATCH 34/51] fix: non-finite settings, SAVE = 0 or MEASURE = 0
 divided by zero

---
 src/IO/input_reader.c | 2 +-
 src/Update/KPHB.c     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 4194b92..1f820ab 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -142,7 +142,7 @@ setdbl( double *val ,
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
   *val = strtod( INPUT[idx].VALUE , &endptr ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
+  if( endptr == INPUT[idx].VALUE || errno == ERANGE || !isfinite( *val ) ) {
     fprintf( stderr , "[IO] I do not understand %s = %s\n" , 
 	     tag , INPUT[idx].VALUE ) ;
     return GLU_FAILURE ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 1a30bc0..52a4eb4 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -134,6 +134,11 @@ hb_update( struct site *lat ,
     fprintf( stderr , "[UPDATE] unusable trajectory name\n" ) ;
     return GLU_FAILURE ;
   }
+  // these are divisors
+  if( HBINFO.Nsave < 1 || HBINFO.Nmeasure < 1 ) {
+    fprintf( stderr , "[UPDATE] SAVE and MEASURE should be greater than 0\n" ) ;
+    return GLU_FAILURE ;
+  }
   char str[ strlen(pch)+32 ] ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
-- 
2.43.0


From 124ebff32c268477ae6ac639ce27c05b7e65d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 35/51] fix: over-relaxed gauge fixing reported success when it
 refused its parameter or did not converge

---
 src/Gfix/Or.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Gfix/Or.c b/src/Gfix/Or.c
index 8ea5034..ec60984 100755
--- a/src/Gfix/Or.c
+++ b/src/Gfix/Or.c
@@ -199,18 +199,20 @@ OrLandau( struct site *__restrict lat ,
   size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
-    iters = 123456789 ;
+    fprintf( stderr , "[OR] failed to initialise the RNG\n" ) ;
+    iters = (size_t)GLU_FAILURE ;
     goto end ;
   }
   if( OrParam < 0.0 || OrParam >= 1.0 ) {
     fprintf( stderr , "[OR] SOR param should be between 0 and 1, not %f \n" ,
 	     OrParam ) ;
+    iters = (size_t)GLU_FAILURE ;
     goto end ;
   }
 #endif
 
   // iterations
-  while( iters < MAX_ITERS && fabs( *theta ) > ACC ) {
+  while( iters < MAX_ITERS && !( fabs( *theta ) <= ACC ) ) {
 
     oldlink = newlink ;
 
@@ -238,6 +240,12 @@ OrLandau( struct site *__restrict lat ,
   // and print it out
   output_fixing_info( lat , *theta , iters ) ;
 
+  if( !( fabs( *theta ) <= ACC ) ) {
+    fprintf( stderr , "\n[GF] Failure to converge to a sufficient solution \n"
+	     "[GF] after %zu iterations of the over-relaxation\n" , iters ) ;
+    iters = (size_t)GLU_FAILURE ;
+  }
+
  end :
   free_cb( &db ) ;
 
@@ -285,12 +293,14 @@ OrCoulomb( struct site *__restrict lat ,
   size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
-    iters = 123456789 ;
+    fprintf( stderr , "[OR] failed to initialise the RNG\n" ) ;
+    iters = (size_t)GLU_FAILURE ;
     goto end ;
   }
   if( OrParam < 0.0 || OrParam >= 1.0 ) {
     fprintf( stderr , "[OR] SOR param should be between 0 and 1, not %f \n" ,
 	     OrParam ) ;
+    iters = (size_t)GLU_FAILURE ;
     goto end ;
   }
 #endif
@@ -303,7 +313,7 @@ OrCoulomb( struct site *__restrict lat ,
     *theta = 1.0 ;
 
     // iterations
-    while( loc_iters < MAX_ITERS && fabs( *theta ) > ACC ) {
+    while( loc_iters < MAX_ITERS && !( fabs( *theta ) <= ACC ) ) {
 
       oldlink = newlink ;
 
@@ -324,7 +334,7 @@ OrCoulomb( struct site *__restrict lat ,
       loc_iters++ ;
     }
 
-    if( loc_iters == MAX_ITERS ) {
+    if( !( fabs( *theta ) <= ACC ) ) {
       fprintf( stdout , "[GF] Slice :: %zu {Stopped by MAX_ITERS} \n"
 	       "[GF] Accuracy :: %1.5e || Iterations :: %zu\n"
 	       "[GF] Failures :: %d\n\n" , t , *theta , loc_iters , 0 ) ;
-- 
2.43.0


From 20cbf1fe62468eb10374f8c10a5b642961c0791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 36/51] fix: momenta of odd lattice sides in the projectors of
 the gluon correlators

---
 src/Geometry/geometry.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/geometry.c b/src/Geometry/geometry.c
index fc8bc4e..c7236c0 100755
--- a/src/Geometry/geometry.c
+++ b/src/Geometry/geometry.c
@@ -48,12 +48,11 @@ get_site_2piBZ( int x[ ND ] ,
     L_2 = Latt.dims[ mu ] >> 1 ;
     temp[mu] = x[mu] ;
     if( mu != DIMS ) {
-      if( temp[ mu ] >= (int)L_2 ) {
+      // odd sides have one more non-negative than negative momentum
+      if( temp[ mu ] >= (int)( Latt.dims[ mu ] - L_2 ) ) {
 	temp [ mu ] -= (int)Latt.dims[ mu ] ;
       } 
-      if( temp[ mu ] < (int)L_2 ) {
-	temp [ mu ] += (int)L_2 ;
-      }
+      temp [ mu ] += (int)L_2 ;
     } else { // fill the rest with 0's
       temp[ mu ] = 0 ;
     }
-- 
2.43.0


From a4695f4fe5c92d60c90657a086d4ae2bf07a9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 37/51] fix: without FFTW the temporal charge correlator was
 the charge density itself

---
 src/Field/Qcorr.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index e98e696..00ff672 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -88,6 +88,31 @@ temporal_correlator( const GLU_complex *qtop ,
   return flag ;
 }
 
+#ifndef HAVE_FFTW3_H
+// the temporal correlator only needs the charge of each timeslice
+static void
+timeslice_correlator( GLU_complex *qtop ,
+		      const double norm )
+{
+  const size_t LT = Latt.dims[ ND-1 ] ;
+  double Qt[ LT ] ;
+  size_t t , tau , i ;
+  for( t = 0 ; t < LT ; t++ ) {
+    Qt[ t ] = 0.0 ;
+    for( i = 0 ; i < LCU ; i++ ) {
+      Qt[ t ] += creal( qtop[ i + LCU * t ] ) ;
+      qtop[ i + LCU * t ] = 0.0 ;
+    }
+  }
+  for( t = 0 ; t < LT ; t++ ) {
+    for( tau = 0 ; tau < LT ; tau++ ) {
+      qtop[ LCU * t ] += Qt[ tau ] * Qt[ ( tau + t ) % LT ] * norm ;
+    }
+  }
+  return ;
+}
+#endif
+
 // computation of the correlator
 // C(r) = < q( x ) q( y ) >  -> r = ( x - y ), r^2 < CUTINFO.max_mom
 // over all indices, q(x) is the topological charge at site x
@@ -206,6 +231,9 @@ compute_Qcorr( struct site *__restrict lat ,
     }
     qcorr[i] = sumqq * NORMSQ ;
   }
+
+  // overwrite the charge density with the correlator
+  timeslice_correlator( FFTW.in , NORMSQ ) ;
 #endif
 
   // look at the correlator of this thing too
-- 
2.43.0


From ef80275dfbbf59d9322a0933f8ef7bdefebca15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 38/51] fix: without FFTW the Polyakov loop correlator lacked
 the complex conjugate

---
 src/Field/POLY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index 052c374..ad62827 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -303,7 +303,7 @@ static_quark_correlator( double complex *result ,
 	// and the trace-trace
 	const GLU_complex tr1 = trace( poly[source] ) ;
 	const GLU_complex tr2 = trace( poly[sink] ) ;
-	tracetrace += tr1 * tr2 ;
+	tracetrace += tr1 * conj( tr2 ) ;
       }
     }
     result[i] = tr * NORM ;
-- 
2.43.0


From f47ce1a90d0e0a1fc0e72b218071cee4f296b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 39/51] fix: 10! in the moments of the topological charge

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index de98336..18e8f52 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -91,7 +91,7 @@ Time_Moments( double *Moment ,
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
-				    5040 , 40320 , 362880 , 362800 ,
+				    5040 , 40320 , 362880 , 3628800 ,
 				    39916800 } ;
   const int LT = (int)Latt.dims[ DIR ] ;
   size_t dims[ ND ] ;
-- 
2.43.0


From 835f72d27220e4e1a28db79bfe3f3b282aaa8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 40/51] fix: reported Polyakov lines were divided by the volume
 twice

---
 src/Wrappers/OBS_wrap.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/Wrappers/OBS_wrap.c b/src/Wrappers/OBS_wrap.c
index 94247ae..ea2a419 100755
--- a/src/Wrappers/OBS_wrap.c
+++ b/src/Wrappers/OBS_wrap.c
@@ -213,13 +213,8 @@ gauge( const struct site *__restrict lat )
 #if !(defined OBC_HACK)
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    // compute correct denominator
-    size_t denom = 1 , nu ;
-    for( nu = 0 ; nu < ND ; nu++ ) {
-      denom *= ( nu != mu ) ? Latt.dims[nu] : 1 ;
-    }
-    // average
-    const double DENOM = 1.0 / ( ( double )NC * denom ) ;
+    // poly() is already averaged over the orthogonal volume
+    const double DENOM = 1.0 / ( double )NC ;
     double complex R = poly( lat , mu ) ;
     fprintf( stdout , "[POLY SU(%d) DIR_%zu] ( %e , %e ) , MODULUS :: %e \n" ,
 	    NC , mu , creal( R ) * DENOM , cimag( R ) * DENOM , 
-- 
2.43.0


From 05a0d71619726a8e76b52f869b35644a5958ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 41/51] fix: smeared gluon propagators: the smeared field
 shared its links with the thin one

---
 src/Cuts/smearing_param.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index b6edf91..0443485 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -214,7 +214,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
 
   // allocate room for the smeared gauge field
-  struct site *SM_A = malloc( LVOLUME * sizeof ( struct site ) ) ;
+  struct site *SM_A = allocate_lat( ) ;
   if( SM_A == NULL ) {
     fprintf( stderr , "[CUTS] smeared field allocation failure\n" ) ;
     return GLU_FAILURE ;
@@ -229,10 +229,13 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t j ; 
 #pragma omp parallel for private(j)
   for( j = 0 ; j < LVOLUME ; j++ ) {
-    memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( SM_A[j].O[mu] , A[j].O[mu] ) ;
+    }
   }
   if( SM_wrap_struct( SM_A , SMINFO ) == GLU_FAILURE ) {
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
 
@@ -247,7 +250,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
       mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
     fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
   
@@ -257,7 +260,7 @@ cuts_struct_smeared( struct site *__restrict A ,
 						ND , GLU_FALSE) ;
   if( list == NULL ) {
     fprintf( stderr , "[CUTS] momentum list allocation failure\n" ) ;
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
 
@@ -325,7 +328,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
   free( (void*)list ) ;
   free( str ) ;
-  free( SM_A ) ;
+  free_lat( SM_A ) ;
 
   return flag ;
 }
-- 
2.43.0


From 08fd4eaeed5c3068b8e10ea5ef9cdd1b64a660e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 42/51] fix: flow scales ignored the last measurement, and used
 unset derivatives for fewer than three

---
 src/Smear/wflowfuncs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index c531206..7a1a780 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -299,6 +299,8 @@ evaluate_scale( double *der ,
 {
   // compute spline for observable meas, x must be sorted smallest to largest
   size_t i , change_up = 0 ;
+  // the derivatives need at least three measurements
+  if( Nmeas < 3 ) return -1 ;
   for( i = 0 ; i < Nmeas ; i++ ) {
     spline_derivative( der , x , meas , Nmeas ) ;
     // W_0 scale
@@ -495,7 +497,7 @@ scaleset( struct wfmeas *curr ,
     curr = curr -> next ;
   }
   if( count > 0 ) {
-    t0 = evaluate_scale( der , time , GT , count , T_0 ) ;
+    t0 = evaluate_scale( der , time , GT , count + 1 , T_0 ) ;
   }
   if( t0 == -1 ) {
     #pragma omp master
@@ -514,7 +516,7 @@ scaleset( struct wfmeas *curr ,
       GT[ i ] = time[ i ] * der[ i ] ;
     }
   }
-  w0 = evaluate_scale( der , time , GT , count , W_0 ) ;
+  w0 = evaluate_scale( der , time , GT , count + 1 , W_0 ) ;
   if( w0 == -1 ) {
     #pragma omp master
     {
-- 
2.43.0


From 5cb117ba299dba1d214a87258e460986056962f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:28 +0000
Subject: [PATCH 43/51] fix: fixed-step flow reported the step back to the
 stopping time with the values before it

---
 src/Smear/wflow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index b185250..652712f 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -152,10 +152,19 @@ flow_RK3( struct site *__restrict lat ,
     if( t > WFLOW_TIME_STOP ) {
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
+      t = WFLOW_TIME_STOP ;
       // update the linked list
       if( ( curr = allocate_meas( ) ) == NULL ) { flag = GLU_FAILURE ; goto clean ; }
+      // compute plaquette
+      av_plaquette_th( WF.red , lat ) ;
+      size_t k ;
+      new_plaq = 0.0 ;
+      for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+	new_plaq += WF.red[ 3 + CLINE*k ] ;
+      }
+      new_plaq *= 2.0/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
-			new_plaq , t , delta_t ,
+			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
       head = curr ;
       count++ ;
-- 
2.43.0


From c2c405ca21f50ee70f85dc0e9a0abd0d8167aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 44/51] fix: SU(2) exponential and logarithm expanded sin(z)/z
 in z instead of z^2

---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 4 ++--
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..6455a4f 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..5374f44 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -196,7 +196,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -294,7 +294,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index acca38b..4d2243b 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -269,7 +269,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -494,7 +494,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From 4aab1b1f86add31a0e57733d4b0411df15cfed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 45/51] fix: writing a U(N) field projected it back to SU(N),
 losing the U(1) phases

---
 src/IO/writers.c           |  4 ----
 src/Wrappers/GLUlib_wrap.c | 29 ++++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 84f7bba..c605120 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -29,7 +29,6 @@
 #include "GLU_timer.h"     // timers for the IO
 #include "HIREP.h"         // write out a HIREP config
 #include "plaqs_links.h"   // compute plaquette and links again
-#include "random_config.h" // latt_reunitU()
 #include "Scidac.h"        // write out a scidac file
 #include "write_headers.h" // write the config header
 
@@ -340,9 +339,6 @@ write_lat( struct site *lat ,
 	   const GLU_output type , 
 	   char *__restrict details )
 {
-  // reunitarise the field before writing out
-  latt_reunitU( lat ) ;
-  
   // CERN stuff is all handled in CERN.c
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 9a88fea..ffe4275 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -172,12 +172,13 @@ read_file( struct head_data *HEAD_DATA ,
   return lat ;
 }
 
-// write out lat
-int
-write_configuration( struct site *lat , 
-		     const char *outfile , 
-		     const GLU_output storage , 
-		     const char *output_details )
+// write out lat, reunitarising it first unless it is not special unitary
+static int
+write_links( struct site *lat , 
+	     const char *outfile , 
+	     const GLU_output storage , 
+	     const char *output_details ,
+	     const GLU_bool reunitarise )
 {
   // attempt to open a file, creation fails if it is already there
   FILE *out_config = fopen( outfile , "wx" ) ;
@@ -190,6 +191,9 @@ write_configuration( struct site *lat ,
     }
     return GLU_FAILURE ;
   }
+  if( reunitarise == GLU_TRUE ) {
+    latt_reunitU( lat ) ;
+  }
   int FLAG = write_lat( lat , out_config , storage , output_details ) ;
   // writing can fail at any point up to and including the close
   if( ferror( out_config ) ) { FLAG = GLU_FAILURE ; }
@@ -202,6 +206,16 @@ write_configuration( struct site *lat ,
   return GLU_SUCCESS ;
 }
 
+// write out lat
+int
+write_configuration( struct site *lat , 
+		     const char *outfile , 
+		     const GLU_output storage , 
+		     const char *output_details )
+{
+  return write_links( lat , outfile , storage , output_details , GLU_TRUE ) ;
+}
+
 // performs heat-bath updates
 int
 heatbath( const char *infile ,
@@ -364,8 +378,9 @@ read_and_U1( const char *infile ,
 
   FLAG = suNC_cross_u1( lat , U1INFO ) ;
 
+  // the field is U(NC) now, must not be projected to SU(NC)
   if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
-    FLAG = write_configuration( lat , outfile , storage , output_details ) ;
+    FLAG = write_links( lat , outfile , storage , output_details , GLU_FALSE ) ;
   }
 
   free_lat( lat ) ;
-- 
2.43.0


From 8b57b680ccaebc145135649e9791ea9265b56e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:17 +0000
Subject: [PATCH 46/51] fix: refuse SCIDAC and ILDG files whose xml does not
 fit this compilation

The result of the xml parser was ignored: a file for another number of
colours, dimensions or another field was reported and then read anyway.
---
 src/IO/Scidac.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index c82f9c1..8a6cc63 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -144,7 +144,12 @@ parse_SCIDAC_hdr( FILE *infile ,
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
-  parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
+  if( parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) == GLU_FAILURE ) {
+    fprintf( stderr , "[IO] xml record not for this compilation "
+	     "... Leaving \n" ) ;
+    free( io_data ) ;
+    return GLU_FAILURE ;
+  }
 
   // free for now
   free( io_data ) ;
-- 
2.43.0


From 46c45dbea16b52be863d237a6ae3d1184f6d0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:30 +0000
Subject: [PATCH 47/51] fix: ILDG files of other gauge groups were labelled
 su3gauge

The reader refuses a field that is not for this number of colours, so
the configurations GLU wrote for NC != 3 could not be read back.
---
 src/IO/Scidac.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 8a6cc63..37ed5da 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -394,10 +394,11 @@ write_header_ILDG( FILE *__restrict out )
   // begin with the usual spiel and the versioning ...
   if( ILDG_str != NULL ) { sprintf( ILDG_str , "%s" , ILDG_start ) ; }
 #ifdef SINGLE_PREC
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>32</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>32</precision>" , NC ) ;
 #else
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>64</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>64</precision>" , NC ) ;
 #endif
+  append_char( &ILDG_str , tmp ) ;
   // and input the geometry .. I enumerate the extra (>4) dimensions, always leaving t running slowest
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
   const char close[4][6] = { "</lx>" , "</ly>" , "</lz>" , "</lt>" } ;
-- 
2.43.0


From e5e6d761ffa4840939c40b6aa62d5bdf3d807265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 48/51] fix: powers of the distance overflowed in the
 topological moments of long lattices

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index 18e8f52..569bfb0 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -81,7 +81,7 @@ Time_Moments( double *Moment ,
 {
   // sum qtop into a correlator q(t)
   GLU_complex *Qt = malloc( Latt.dims[ DIR ] * sizeof( GLU_complex ) ) ;
-  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
+  double *tpow = malloc( Latt.dims[ DIR ] * sizeof( double ) ) ;
   if( Qt == NULL || tpow == NULL ) {
     fprintf( stderr , "[QMOMENTS] allocation failure\n" ) ;
     free( Qt ) ;
-- 
2.43.0


From f43021b74a957e59b0c608f12127421504b49dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 49/51] fix: links that are not numbers were read, written and
 reported as success

---
 src/IO/read_config.c       |  6 ++++++
 src/U1/SUNCxU1_config.c    |  5 +++++
 src/Update/KPHB.c          | 11 +++++++++++
 src/Wrappers/GLUlib_wrap.c | 18 +++++++++++++++---
 src/Wrappers/SM_wrap.c     |  6 ++++++
 5 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 6668551..081dc05 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -41,6 +41,12 @@ check_sums( const double plaq ,
   double TTOL = 0.0 ;
   int error = 0 ;
   enum{ DISASTER = 3 } ;
+
+  // not every format has a check on these
+  if( !isfinite( plaq ) || !isfinite( tr ) ) {
+    fprintf( stderr , "\n[IO] the links are not numbers\n\n" ) ;
+    return GLU_FAILURE ;
+  }
   
   switch( Latt.head ) {
   case MILC_HEADER :
diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index de60b20..611c8d5 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -108,6 +108,11 @@ create_u1( struct site *lat ,
   // "Finite Size, Fermion Mass and NN(f) Systematics in Computer Simulations of Quantum Electrodynamics"
   // and plaquette check should give ~ 0.5
   const GLU_real e = sqrt( 4. * M_PI * U1INFO.alpha ) ;
+  if( !isfinite( e*U1INFO.charge ) ) {
+    fprintf( stderr , "[U(1)] unusable coupling, alpha %g and charge %g\n" ,
+	     (double)U1INFO.alpha , (double)U1INFO.charge ) ;
+    return GLU_FAILURE ;
+  }
 
   // Factor of sqrt(V) is for the FFT norm
   fprintf( stdout , "\n[U(1)] e :: %1.14f \n\n" , e ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 52a4eb4..edd61a7 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -139,6 +139,11 @@ hb_update( struct site *lat ,
     fprintf( stderr , "[UPDATE] SAVE and MEASURE should be greater than 0\n" ) ;
     return GLU_FAILURE ;
   }
+  // the heatbath is for a positive coupling
+  if( !( HBINFO.beta > 0 ) ) {
+    fprintf( stderr , "[UPDATE] BETA should be greater than 0\n" ) ;
+    return GLU_FAILURE ;
+  }
   char str[ strlen(pch)+32 ] ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
@@ -269,6 +274,12 @@ hb_update( struct site *lat ,
   free( POLYred ) ;
   #endif
 
+  // with an unusable beta there is nothing left of the links
+  if( !isfinite( av_plaquette( lat ) ) ) {
+    fprintf( stderr , "[UPDATE] the updated links are not numbers\n" ) ;
+    FLAG = GLU_FAILURE ;
+  }
+
   // free the draughtboard
   free_cb( &db ) ;
 
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index ffe4275..b928cad 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -30,6 +30,7 @@
 #include "init.h"           // init_latt()
 #include "KPHB.h"           // pseudo-heatbath updates
 #include "OBS_wrap.h"       // standard observable calculations (default)
+#include "plaqs_links.h"    // average plaquette
 #include "random_config.h"  // random transform
 #include "read_headers.h"   // read the header data
 #include "read_config.h"    // read the binary configuration and check
@@ -172,6 +173,15 @@ read_file( struct head_data *HEAD_DATA ,
   return lat ;
 }
 
+// with unusable parameters there is nothing left of the links
+static int
+check_finite( struct site *lat )
+{
+  if( isfinite( av_plaquette( lat ) ) ) { return GLU_SUCCESS ; }
+  fprintf( stderr , "\n[IO] the links are not numbers\n" ) ;
+  return GLU_FAILURE ;
+}
+
 // write out lat, reunitarising it first unless it is not special unitary
 static int
 write_links( struct site *lat , 
@@ -180,6 +190,10 @@ write_links( struct site *lat ,
 	     const char *output_details ,
 	     const GLU_bool reunitarise )
 {
+  if( reunitarise == GLU_TRUE ) {
+    latt_reunitU( lat ) ;
+  }
+  if( check_finite( lat ) == GLU_FAILURE ) { return GLU_FAILURE ; }
   // attempt to open a file, creation fails if it is already there
   FILE *out_config = fopen( outfile , "wx" ) ;
   if( out_config == NULL ) {
@@ -191,9 +205,6 @@ write_links( struct site *lat ,
     }
     return GLU_FAILURE ;
   }
-  if( reunitarise == GLU_TRUE ) {
-    latt_reunitU( lat ) ;
-  }
   int FLAG = write_lat( lat , out_config , storage , output_details ) ;
   // writing can fail at any point up to and including the close
   if( ferror( out_config ) ) { FLAG = GLU_FAILURE ; }
@@ -312,6 +323,7 @@ read_and_fix( const char *infile ,
   }
 
   FLAG = GF_wrap( infile , lat , GFINFO ) ;
+  if( FLAG != GLU_FAILURE ) { FLAG = check_finite( lat ) ; }
 
   // the configuration is only written if there is one
   if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index 58babd0..bf8b98d 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -34,6 +34,7 @@
 #include "GLU_timer.h"      // timing functions
 #include "HYP.h"            // 3D (spatial) smearing functions
 #include "ND_generic_HYP.h" // recursive ND-dimensional blocked smearing
+#include "plaqs_links.h"    // average plaquette
 #include "smear.h"          // standard smearing
 #include "wflow.h"          // fixed-epsilon wilson flow
 
@@ -252,5 +253,10 @@ SM_wrap_struct( struct site *__restrict lat ,
     FLAG = hyp_chooser( lat , SMINFO , meminfo ) ;
   }
   print_time( ) ;
+  // with unusable parameters there is nothing left of the links
+  if( FLAG != GLU_FAILURE && !isfinite( av_plaquette( lat ) ) ) {
+    fprintf( stderr , "[SMEAR] the smeared links are not numbers\n" ) ;
+    return GLU_FAILURE ;
+  }
   return FLAG ;
 }
-- 
2.43.0


From cc8a71a678679023586bbc83a4c55d8bba6c6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 50/51] fix: trajectories of a configuration given by a
 relative path were saved in the root directory

---
 src/Update/KPHB.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index edd61a7..fe3ee41 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -127,10 +127,13 @@ hb_update( struct site *lat ,
 	   const GLU_output storage , 
 	   const char *output_details )
 {
-  // strip the number in the infile if it has one
-  char *pch = strtok( (char*)traj_name , "." ) ;
+  // strip the number in the infile if it has one, leaving its path alone
+  const char *base = strrchr( traj_name , '/' ) ;
+  base = ( base == NULL ) ? traj_name : base + 1 ;
+  base += strspn( base , "." ) ;
+  const size_t len = (size_t)( base - traj_name ) + strcspn( base , "." ) ;
   // can't be empty and needs space for ".%zu.rand"
-  if( pch == NULL ) {
+  if( *base == '\0' ) {
     fprintf( stderr , "[UPDATE] unusable trajectory name\n" ) ;
     return GLU_FAILURE ;
   }
@@ -144,7 +147,9 @@ hb_update( struct site *lat ,
     fprintf( stderr , "[UPDATE] BETA should be greater than 0\n" ) ;
     return GLU_FAILURE ;
   }
-  char str[ strlen(pch)+32 ] ;
+  char pch[ len+1 ] , str[ len+32 ] ;
+  memcpy( pch , traj_name , len ) ;
+  pch[ len ] = '\0' ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
   if( HBINFO.continuation == GLU_FALSE ) {
-- 
2.43.0


From 9633322b7243633e2310ec8bea58305aa5db936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:03 +0000
Subject: [PATCH 51/51] fix: uninitialised bytes after the date of a MILC
 header were written to the file

---
 src/IO/write_headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/write_headers.c b/src/IO/write_headers.c
index c7bd907..edc956f 100755
--- a/src/IO/write_headers.c
+++ b/src/IO/write_headers.c
@@ -58,7 +58,7 @@ write_header_MILC( FILE *__restrict out ,
   for (int i = 0; i < ND; i ++) dims[i] = Latt.dims[i];
   swap_and_write_int( out , dims , ND ) ;
 
-  char str[ 64 ] ;
+  char str[ 64 ] = {} ;
   sprintf( str , "%s GMT" , get_date( ) ) ;
   fprintf( stdout , "[IO] MILC time %s\n" , str ) ;
   fwrite( str , sizeof( char ) , 64 , out ) ;
-- 
2.43.0

