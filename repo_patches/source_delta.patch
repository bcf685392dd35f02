From d0ff59378d833e53df57582b358cd5acfc3b806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:40 +0000
Subject: [PATCH 01/32] fix: reject negative dimensions in Tensor::reshape and
 compute element counts in size_t

---
 src/runtime/tensor.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..c84227c 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -51,6 +51,14 @@ dw::Strides calculateStrides(const dw::Shape& shape) {
     return strides;
 }
 
+static bool hasNegativeDim(const dw::Shape& shape) {
+    return std::any_of(shape.begin(), shape.end(), [](int dim) { return dim < 0; });
+}
+
+static size_t calculateTotal(const dw::Shape& shape) {
+    return std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
+}
+
 dw::Tensor::Tensor() : m_descriptor(new Descriptor()) {
 }
 
@@ -64,16 +72,11 @@ dw::Tensor::Tensor(const Shape& shape, float* data) : Tensor() {
 }
 
 void dw::Tensor::init(const dw::Shape& shape) {
-    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
-                                         [](int dim) { return dim < 0; });
-    DeepWorks_Assert(!have_negative_dim && "Cannot allocate tensor dynamic shape.");
+    DeepWorks_Assert(!hasNegativeDim(shape) && "Cannot allocate tensor dynamic shape.");
 
     m_descriptor->shape   = shape;
     m_descriptor->strides = calculateStrides(shape);
-    m_descriptor->total   = std::accumulate(shape.begin(),
-                                            shape.end(),
-                                            1,
-                                            std::multiplies<>());
+    m_descriptor->total   = calculateTotal(shape);
 }
 
 void dw::Tensor::copyTo(dw::Tensor& rhs) const {
@@ -95,8 +98,8 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
-    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
-    DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
+    DeepWorks_Assert(!hasNegativeDim(shape) && "Cannot reshape tensor to dynamic shape.");
+    DeepWorks_Assert(calculateTotal(shape) == m_descriptor->total && "Total sizes must be equal");
 
     m_descriptor->shape = shape;
     m_descriptor->strides = calculateStrides(shape);
-- 
2.43.0


From f0457a6c1687eeda6b5cfbd96ad6ac839b3a597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 02/32] fix: pad max pooling with the lowest float, so that
 padding never wins over negative inputs

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..222f85f 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::lowest());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From 27b65bc5f8b7a52051487e27f7ee9aeceaea2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 03/32] fix: re-create BatchNorm2D buffers when the batch or
 image size changes

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..8dd8ec9 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,10 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
-        nhwc_in  = Tensor({N, H, W, C});
-        nhwc_out = Tensor({N, H, W, C});
-    }
-
-    if (m_input_centered.empty()) {
+    // If change batch_size or image size need to create new buffers
+    if (nhwc_in.shape() != Shape{N, H, W, C}) {
+        nhwc_in          = Tensor({N, H, W, C});
+        nhwc_out         = Tensor({N, H, W, C});
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From ff1c2f61162676c8f31a1811792f57ddce63bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 04/32] fix: BatchNorm2D backward adds to the input gradient
 instead of overwriting it

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 8dd8ec9..76bc8f9 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -83,8 +83,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad adds to the gradient that is already there.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From a2d3703fc182ce58dc2ff4966d8f728b1ec7717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:34 +0000
Subject: [PATCH 05/32] fix: validate layer input shapes before creating
 parameters

---
 include/deepworks/base_op.hpp | 4 +++-
 src/expression/nn.cpp         | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index f7f2675..0c3a3be 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -31,11 +31,13 @@ struct BaseOp {
     template <typename... Placeholders>
     Placeholder operator()(Placeholders... ins) {
         auto get_shape = [](Placeholder ph) { return ph.shape(); };
+        // NB: outShape validates input shapes, so must be called before init.
+        auto out_shape = static_cast<D*>(this)->outShape(get_shape(ins)...);
         static_cast<D*>(this)->init(get_shape(ins)...);
 
         Call call{m_info};
         call.pass({ins...});
-        return call.create(static_cast<D*>(this)->outShape(get_shape(ins)...));
+        return call.create(out_shape);
     }
 
     // NB: Generic operator() which works with vector
diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index d0b9d66..90077c8 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -190,6 +190,7 @@ void dw::BatchNorm1D::init(const Shape& in_shape) {
 }
 
 dw::Shape dw::BatchNorm1D::outShape(const dw::Shape& in_shape) {
+    DeepWorks_Assert(in_shape.size() == 2u && "BatchNorm1D layer works only with 2D tensors");
     return in_shape;
 }
 
-- 
2.43.0


From f657eee5341f2dc1a88bee919978ad846238ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:35 +0000
Subject: [PATCH 06/32] fix: reject a wrong number of inputs when a layer is
 built from a list of placeholders

---
 include/deepworks/base_op.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index 0c3a3be..daa8989 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -3,6 +3,7 @@
 #include <deepworks/placeholder.hpp>
 #include <deepworks/call.hpp>
 #include <deepworks/layer_info.hpp>
+#include <deepworks/utils/assert.hpp>
 
 namespace deepworks {
 
@@ -42,6 +43,7 @@ struct BaseOp {
 
     // NB: Generic operator() which works with vector
     Placeholder operator()(const Placeholders& phs) {
+        DeepWorks_Assert(phs.size() == num_in && "Wrong number of inputs for the layer");
         return call_impl(phs, std::make_index_sequence<num_in>()); 
     }
 
-- 
2.43.0


From 8a9a889e9a6ce5af15ae6d75bf224fcd87c48b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:35 +0000
Subject: [PATCH 07/32] fix: do not fclose a null FILE when an image can't be
 opened

---
 src/io/image_reader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..b44fc44 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -30,7 +30,6 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     FILE *infile = fopen(path.data(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -101,7 +100,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(path.data(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From 1bdb54c420977fb55bf7431eacb4d1b0a0ba17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:35 +0000
Subject: [PATCH 08/32] fix: open images through a null-terminated copy of the
 path

---
 src/io/image_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b44fc44..2dc84cb 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -27,7 +27,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
@@ -98,7 +98,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
-- 
2.43.0


From c1a6344bf1dbe3a8f44193eaf46d6aada473b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 09/32] fix: expand palette, low bit depth, 16 bit and
 interlaced PNG images to 8 bits per channel

---
 src/io/image_reader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 2dc84cb..b58d514 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -125,11 +125,20 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
         png_read_info(png_ptr, info_ptr);
 
+        // NB: Bring every image to 8 bits per channel without a palette.
+        if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_PALETTE) {
+            png_set_palette_to_rgb(png_ptr);
+        } else if (png_get_bit_depth(png_ptr, info_ptr) < 8) {
+            png_set_expand_gray_1_2_4_to_8(png_ptr);
+        }
+        png_set_scale_16(png_ptr);
+        png_set_interlace_handling(png_ptr);
+        png_read_update_info(png_ptr, info_ptr);
+
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
-        png_read_update_info(png_ptr, info_ptr);
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-- 
2.43.0


From 55d463792018ce266e49d8167cccd18ce7e7b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:38 +0000
Subject: [PATCH 10/32] fix: raise an exception instead of terminating the
 process on JPEG decoding errors

---
 src/io/image_reader.cpp | 107 ++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 43 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b58d514..ec6c740 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -5,6 +5,7 @@
 #include <deepworks/utils/assert.hpp>
 
 #ifdef HAVE_JPEG
+#include <cstdio> // FILE, which jpeglib.h needs
 #include <jpeglib.h>
 #endif
 
@@ -13,6 +14,8 @@
 #endif
 
 #include <algorithm> // std::copy_n
+#include <csetjmp>
+#include <vector>
 
 namespace {
 bool IsPngFile(std::string_view path) {
@@ -23,73 +26,91 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+// NB: The default libjpeg error handler calls exit(). This one jumps back to the caller.
+struct JpegErrorManager {
+    jpeg_error_mgr base;
+    jmp_buf        jump;
+};
+
+void JpegErrorExit(j_common_ptr cinfo) {
+    (*cinfo->err->output_message)(cinfo);
+    longjmp(reinterpret_cast<JpegErrorManager*>(cinfo->err)->jump, 1);
+}
+
+// NB: No objects with destructors may live in the functions libjpeg can jump to.
+bool StartJpeg(jpeg_decompress_struct& cinfo, JpegErrorManager& err, FILE* infile) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    jpeg_create_decompress(&cinfo);
+    jpeg_stdio_src(&cinfo, infile);
+
+    (void) jpeg_read_header(&cinfo, true);
+    (void) jpeg_start_decompress(&cinfo);
+    return true;
+}
+
+bool ReadJpegRow(jpeg_decompress_struct& cinfo, JpegErrorManager& err, JSAMPROW row) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    return jpeg_read_scanlines(&cinfo, &row, 1) == 1;
+}
+
+bool FinishJpeg(jpeg_decompress_struct& cinfo, JpegErrorManager& err) {
+    if (setjmp(err.jump)) {
+        return false;
+    }
+    return jpeg_finish_decompress(&cinfo);
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-    int width         = -1;
-    int height        = -1;
-    int channels      = -1;
-    JSAMPARRAY buffer = nullptr;
-
-    auto destroy = [&]() {
-        jpeg_destroy_decompress(&cinfo);
-        fclose(infile);
-    };
-
-    auto finish_and_destroy = [&]() {
-        (void) jpeg_finish_decompress(&cinfo);
-        destroy();
-    };
-
     try {
-        cinfo.err = jpeg_std_error(&err);
-        jpeg_create_decompress(&cinfo);
-        jpeg_stdio_src(&cinfo, infile);
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit = JpegErrorExit;
 
-        (void) jpeg_read_header(&cinfo, true);
-        (void) jpeg_start_decompress(&cinfo);
+        DeepWorks_Assert(StartJpeg(cinfo, err, infile) && "Can't read JPEG header");
 
-        size_t row_stride = cinfo.output_width * cinfo.output_components;
-        buffer = (*cinfo.mem->alloc_sarray)((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
+        int width    = static_cast<int>(cinfo.output_width);
+        int height   = static_cast<int>(cinfo.output_height);
+        int channels = static_cast<int>(cinfo.output_components);
 
-        width = static_cast<int>(cinfo.output_width);
-        height = static_cast<int>(cinfo.output_height);
-        channels = static_cast<int>(cinfo.output_components);
+        const size_t elements_per_h_channel = static_cast<size_t>(width) * channels;
 
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-            DeepWorks_Assert(height * width * channels == out_tensor.total());
+            DeepWorks_Assert(height * elements_per_h_channel == out_tensor.total());
         }
-    } catch (...) {
-        // NB: jpeg_finish_decompress cause "Application transferred to few scanlines"
-        destroy();
-        throw;
-    }
 
-    deepworks::Tensor::Type *dst_data = out_tensor.data();
+        deepworks::Tensor::Type *dst_data = out_tensor.data();
 
-    const size_t elements_per_h_channel = width * channels;
-    size_t h = 0;
-    // it's works if we have default hwc layout for tensor
-    try {
-        while (cinfo.output_scanline < cinfo.output_height) {
-            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
-            std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
-            ++h;
+        std::vector<JSAMPLE> row(elements_per_h_channel);
+        // it's works if we have default hwc layout for tensor
+        for (int h = 0; h < height; ++h) {
+            DeepWorks_Assert(ReadJpegRow(cinfo, err, row.data()) && "Can't read JPEG data");
+            std::copy_n(row.data(), elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
         }
+        DeepWorks_Assert(FinishJpeg(cinfo, err) && "Can't read JPEG data");
     } catch (...) {
-        finish_and_destroy();
+        // NB: jpeg_finish_decompress cause "Application transferred to few scanlines"
+        jpeg_destroy_decompress(&cinfo);
+        fclose(infile);
         throw;
     }
-    finish_and_destroy();
+    jpeg_destroy_decompress(&cinfo);
+    fclose(infile);
 
 #else
     DeepWorks_Assert(false && "Couldn't find LIBJPEG");
-- 
2.43.0


From 56e98babf62d8a5742f6beed15974c2297abd301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:35 +0000
Subject: [PATCH 11/32] fix: release everything and keep no indeterminate state
 on PNG decoding errors

---
 src/io/image_reader.cpp | 77 ++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index ec6c740..b05b597 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -117,6 +117,39 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #endif
 }
 
+#ifdef HAVE_PNG
+// NB: libpng reports errors by longjmp, so no objects with destructors may live
+// in the functions it can jump to.
+bool ReadPngInfo(png_structp png_ptr, png_infop info_ptr, FILE* infile) {
+    if (setjmp(png_jmpbuf(png_ptr))) {
+        return false;
+    }
+    png_init_io(png_ptr, infile);
+    png_set_sig_bytes(png_ptr, 8);
+
+    png_read_info(png_ptr, info_ptr);
+
+    // NB: Bring every image to 8 bits per channel without a palette.
+    if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_PALETTE) {
+        png_set_palette_to_rgb(png_ptr);
+    } else if (png_get_bit_depth(png_ptr, info_ptr) < 8) {
+        png_set_expand_gray_1_2_4_to_8(png_ptr);
+    }
+    png_set_scale_16(png_ptr);
+    png_set_interlace_handling(png_ptr);
+    png_read_update_info(png_ptr, info_ptr);
+    return true;
+}
+
+bool ReadPngImage(png_structp png_ptr, png_bytepp row_pointers) {
+    if (setjmp(png_jmpbuf(png_ptr))) {
+        return false;
+    }
+    png_read_image(png_ptr, row_pointers);
+    return true;
+}
+#endif
+
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(std::string(path).c_str(), "rb");
@@ -124,72 +157,52 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-    png_bytep*  row_pointers = nullptr;
     png_structp png_ptr{};
     png_infop   info_ptr{};
     try {
         char header[8];
-        // FIXME: Handle that properly.
         size_t sz = fread(header, 1, 8, infile);
-        (void)sz;
-        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
+        if (sz != 8 || png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
             DeepWorks_Throw() << "File is not a PNG file: " << path;
         }
         png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
+        DeepWorks_Assert(png_ptr && "Can't create png read struct");
 
         info_ptr = png_create_info_struct(png_ptr);
+        DeepWorks_Assert(info_ptr && "Can't create png info struct");
 
-        DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during init_io");
-
-        png_init_io(png_ptr, infile);
-        png_set_sig_bytes(png_ptr, 8);
-
-        png_read_info(png_ptr, info_ptr);
-
-        // NB: Bring every image to 8 bits per channel without a palette.
-        if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_PALETTE) {
-            png_set_palette_to_rgb(png_ptr);
-        } else if (png_get_bit_depth(png_ptr, info_ptr) < 8) {
-            png_set_expand_gray_1_2_4_to_8(png_ptr);
-        }
-        png_set_scale_16(png_ptr);
-        png_set_interlace_handling(png_ptr);
-        png_read_update_info(png_ptr, info_ptr);
+        DeepWorks_Assert(ReadPngInfo(png_ptr, info_ptr, infile) && "Error during init_io");
 
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
+        const size_t elements_per_h_channel = static_cast<size_t>(width) * channels;
+
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-            DeepWorks_Assert(height * width * channels == out_tensor.total());
+            DeepWorks_Assert(height * elements_per_h_channel == out_tensor.total());
         }
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
         /* read file */
-        DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during read image");
-
-        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
+        const size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+        std::vector<png_byte>  pixels(row_bytes * height);
+        std::vector<png_bytep> row_pointers(height);
         for (int y = 0; y < height; y++) {
-            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
+            row_pointers[y] = pixels.data() + y * row_bytes;
         }
-        png_read_image(png_ptr, row_pointers);
+        DeepWorks_Assert(ReadPngImage(png_ptr, row_pointers.data()) && "Error during read image");
         // it's works if we have default hwc layout for tensor
-        const size_t elements_per_h_channel = width * channels;
         for (int h = 0; h < height; ++h) {
             std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
         }
-        for (int y = 0; y < height; y++) {
-            free(row_pointers[y]);
-        }
     } catch (...) {
-        free(row_pointers);
         fclose(infile);
         png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
         throw;
     }
-    free(row_pointers);
     fclose(infile);
     png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 #else
-- 
2.43.0


From 7860a0b79460776eac06e89fe9763370ed4e4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 12/32] fix: visit every node once when an expression is
 unrolled into a graph

---
 src/model/graphbuilder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..0c4638d 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,12 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+        // NB: Mark node as visited, it might have been pushed several times.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From e41ccf8cde4825cf20e52b2ed8ec8d558f9b8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 13/32] fix: accept model inputs that no layer uses

---
 src/model/graphbuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index 0c4638d..24683d9 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -50,7 +50,7 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     }
 
     // Get handles associated with plahceholders
-    auto extract = [this](const Placeholder& ph) { return m_data[&ph.impl()]; };
+    auto extract = [this](const Placeholder& ph) { return getDataNode(ph); };
 
     std::vector<ade::NodeHandle> in_handles;
     in_handles.reserve(ins.size());
-- 
2.43.0


From a98abee81c316992959e8a8284d951a8eca5a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:21 +0000
Subject: [PATCH 14/32] fix: fill every requested model output, also repeated
 ones and model inputs

---
 src/model/graphbuilder.cpp     |  5 +++--
 src/runtime/cpu/cpubackend.cpp | 13 +++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index 24683d9..b587659 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -65,10 +65,11 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
         m_tgraph.metadata(nh).get<graph::Data>().s = storage;
     };
     using namespace std::placeholders;
-    std::for_each(in_handles.begin(), in_handles.end(),
-            std::bind(mark_node, _1, graph::Data::Storage::INPUT));
+    // NB: Model input can be requested as output as well, it remains an input.
     std::for_each(out_handles.begin(), out_handles.end(),
             std::bind(mark_node, _1, graph::Data::Storage::OUTPUT));
+    std::for_each(in_handles.begin(), in_handles.end(),
+            std::bind(mark_node, _1, graph::Data::Storage::INPUT));
 
     // Put graph info
     m_tgraph.metadata().set(graph::Info{in_handles, out_handles, m_data.size()});
diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 691455d..4129f1d 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -77,8 +77,9 @@ void dwcpu::CPUBackend::bind(const std::vector<deepworks::Tensor>& tensors,
 void dwcpu::CPUBackend::forward(const std::vector<deepworks::Tensor>& inputs,
                                       std::vector<deepworks::Tensor>& outputs) {
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs , info.in_nhs,  m_mem);
+    // NB: Model input can be requested as output as well, so bind inputs last.
     bind(outputs, info.out_nhs, m_mem);
+    bind(inputs , info.in_nhs,  m_mem);
 
     auto extract = [this](int id) { return m_mem[id]; };
 
@@ -96,6 +97,14 @@ void dwcpu::CPUBackend::forward(const std::vector<deepworks::Tensor>& inputs,
         const auto& cpulayer = cpu_graph.metadata(nh).get<dwcpu::CPUImpl>().impl;
         cpulayer->forward(inps, outs);
     }
+
+    // NB: Only one of the outputs which refer to the same data is bound.
+    for (int i = 0; i < info.out_nhs.size(); ++i) {
+        const auto& d = m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>();
+        if (m_mem[d.id].data() != outputs[i].data()) {
+            m_mem[d.id].copyTo(outputs[i]);
+        }
+    }
 }
 
 void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
@@ -116,8 +125,8 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     }
 
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs      , info.in_nhs , m_mem);
     bind(outputs     , info.out_nhs, m_mem);
+    bind(inputs      , info.in_nhs , m_mem);
     bind(grad_outputs, info.out_nhs, m_grad);
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
-- 
2.43.0


From 0addd81a0fd0be6a8ce32218001c4e1eadfa22d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:19 +0000
Subject: [PATCH 15/32] fix: leave the output gradients passed to
 Model::backward untouched and use all of them

---
 src/runtime/cpu/cpubackend.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 4129f1d..af17c9f 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -7,6 +7,9 @@
 
 #include <ade/typed_graph.hpp>
 
+#include <algorithm>
+#include <functional>
+
 namespace deepworks {
 namespace cpu {
 
@@ -47,15 +50,14 @@ dwcpu::CPUBackend::CPUBackend(graph::Graph& graph)
                     // FIXME: Shape should be already propagated.
                     // Stop using placeholder here, it left on expression step.
                     m_mem[d.id].allocate(d.ph.shape());
-                    m_grad[d.id].allocate(d.ph.shape());
                 }
 
                 // FIXME: In fact we don't need to allocate memory
                 // to store gradients for inputs, because the aren't
                 // used, but backend isn't ready to implement such logic.
-                if (d.s == graph::Data::Storage::INPUT) {
-                    m_grad[d.id].allocate(d.ph.shape());
-                }
+                // NB: Gradients of outputs are stored as well, because layers
+                // accumulate into them if output is used inside the graph.
+                m_grad[d.id].allocate(d.ph.shape());
 
                 break;
             }
@@ -117,17 +119,21 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
         }
 
         const auto& d = m_tgraph.metadata(nh).get<graph::Data>();
-        // NB: output gradients passed by user.
-        if (d.s != graph::Data::Storage::OUTPUT) {
-            auto& grad = m_grad[d.id];
-            deepworks::initializer::zeros(grad);
-        }
+        deepworks::initializer::zeros(m_grad[d.id]);
     }
 
     const auto& info = m_tgraph.metadata().get<graph::Info>();
     bind(outputs     , info.out_nhs, m_mem);
     bind(inputs      , info.in_nhs , m_mem);
-    bind(grad_outputs, info.out_nhs, m_grad);
+
+    // NB: output gradients passed by user, they must be left untouched.
+    for (int i = 0; i < info.out_nhs.size(); ++i) {
+        const auto& d = m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>();
+        auto& grad = m_grad[d.id];
+        DeepWorks_Assert(grad_outputs[i].total() == grad.total());
+        std::transform(grad.data(), grad.data() + grad.total(), grad_outputs[i].data(),
+                       grad.data(), std::plus<float>());
+    }
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
     auto extract_grad = [this](int id) { return m_grad[id]; };
-- 
2.43.0


From bf5e9498e688c7d5617ec54aed460459784221a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:57 +0000
Subject: [PATCH 16/32] fix: keep the order of model inputs and outputs, and
 repeated ones, in the model config

---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..2816108 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order in which user passed inputs and outputs to the model.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (auto nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (auto nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From e4802b403a7f7a6d961922d9fa98a789fb68dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 17/32] fix: generate layer names that differ from the names
 already used in the model

---
 src/model/model.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 2816108..4a67ffa 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -63,6 +63,13 @@ static void initNodeId(TypedGraph& tgraph) {
         tgraph.metadata(nh).get<Data>().id = idx;
     }
 
+    // NB: Generated names must differ from the existing ones.
+    std::unordered_set<std::string> names;
+    sorted  = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
+    for (auto nh : ade::util::filter(sorted, is_op{tgraph})) {
+        names.insert(tgraph.metadata(nh).get<deepworks::graph::Op>().info.impl().name);
+    }
+
     // NB: Setup op in/out ids.
     sorted  = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
     for (auto it : ade::util::indexed(ade::util::filter(sorted, is_op{tgraph}))) {
@@ -77,8 +84,11 @@ static void initNodeId(TypedGraph& tgraph) {
             std::string name;
             const auto& type = op.info.impl().type;
             std::transform(type.begin(), type.end(), std::back_inserter(name), ::tolower);
-            name += std::to_string(idx);
-            op.info.impl().name = name;
+            auto suffix = idx;
+            while (!names.insert(name + std::to_string(suffix)).second) {
+                ++suffix;
+            }
+            op.info.impl().name = name + std::to_string(suffix);
         }
 
         op.in_ids.resize(nh->inEdges().size());
-- 
2.43.0


From 70b91cf4e4b3ab6e2d322a1d2949507127354ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 18/32] fix: raise an exception when a model file is truncated
 or its sizes exceed the file

---
 src/serialization.cpp | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..0d60f55 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -13,10 +13,29 @@ void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
 }
 
+// NB: Reads exactly the requested number of bytes or throws.
+static void read_bytes(std::ifstream& file, char* data, size_t size) {
+    if (!file.read(data, size)) {
+        DeepWorks_Throw() << "Failed to read: unexpected end of file";
+    }
+}
+
+// NB: Number of elements is read from the file,
+// so check that file isn't too short to contain them.
+static void check_size(std::ifstream& file, size_t count, size_t elem_size) {
+    const auto pos = file.tellg();
+    file.seekg(0, std::ios::end);
+    const auto end = file.tellg();
+    file.seekg(pos);
+    if (!file || count > static_cast<size_t>(end - pos) / elem_size) {
+        DeepWorks_Throw() << "Failed to read: unexpected end of file";
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
-    file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    read_bytes(file, reinterpret_cast<char*>(&value), sizeof(value));
     return value;
 }
 
@@ -31,9 +50,10 @@ template <typename T>
 T read_sequence(std::ifstream& file) {
     T seq{};
     auto size = read_value<size_t>(file);
+    check_size(file, size, sizeof(typename T::value_type));
     seq.resize(size);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(typename T::value_type));
+    read_bytes(file, reinterpret_cast<char*>(seq.data()),
+               size * sizeof(typename T::value_type));
     return seq;
 }
 
@@ -42,8 +62,9 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(T));
+    DeepWorks_Assert(size == seq.size());
+    read_bytes(file, reinterpret_cast<char*>(seq.data()),
+               size * sizeof(T));
     return seq;
 }
 
@@ -85,7 +106,7 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
 
     auto size = read_value<size_t>(file);
     
-    for (int i = 0; i < size; ++i) {
+    for (size_t i = 0; i < size; ++i) {
         auto name = read_sequence<std::string>(file);
         auto it = state.find(name);
         if (it == state.end()) {
@@ -99,8 +120,8 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
                               << "Actual: " << shape;
         }
 
-        file.read(reinterpret_cast<char*>(it->second.data()),
-                  it->second.total() * sizeof(dw::Tensor::Type));
+        read_bytes(file, reinterpret_cast<char*>(it->second.data()),
+                   it->second.total() * sizeof(dw::Tensor::Type));
     }
 }
 
@@ -221,7 +242,7 @@ void write_attributes(const dw::Attributes& attrs, std::ofstream& file) {
 dw::Attributes read_attributes(std::ifstream& file) {
     dw::Attributes attrs;
     auto attrs_size = read_value<size_t>(file);
-    for (int i = 0; i < attrs_size; ++i) {
+    for (size_t i = 0; i < attrs_size; ++i) {
         auto name = read_sequence<std::string>(file);
         auto attr = read_attribute(file);
         attrs.emplace(std::move(name), std::move(attr));
@@ -275,7 +296,7 @@ dw::Model::Config dw::load_cfg(std::ifstream& file) {
     cfg.output_ids = read_sequence<std::vector<int>>(file);
 
     auto map_size = read_value<size_t>(file);
-    for (int i = 0; i < map_size; ++i) {
+    for (size_t i = 0; i < map_size; ++i) {
         auto id    = read_value<int>(file);
         auto shape = read_sequence<dw::Shape>(file);
         cfg.ph_map.emplace(id,
@@ -283,7 +304,7 @@ dw::Model::Config dw::load_cfg(std::ifstream& file) {
     }
 
     auto num_ops = read_value<size_t>(file);
-    for (int i = 0; i < num_ops; ++i) {
+    for (size_t i = 0; i < num_ops; ++i) {
         dw::Model::Config::OperationInfo op_info;
         op_info.name    = read_sequence<std::string>(file);
         op_info.type    = read_sequence<std::string>(file);
-- 
2.43.0


From 8159c9659953a464fb39ef7d293f7949b7ddd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 19/32] fix: raise an exception when a model can't be written

---
 src/serialization.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 0d60f55..d627ef5 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -32,6 +32,12 @@ static void check_size(std::ifstream& file, size_t count, size_t elem_size) {
     }
 }
 
+static void check_written(std::ofstream& file) {
+    if (!file.flush()) {
+        DeepWorks_Throw() << "Failed to write to the file";
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
@@ -88,6 +94,7 @@ void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
         file.write(reinterpret_cast<char*>(tensor.data()),
                    tensor.total() * sizeof(dw::Tensor::Type));
     }
+    check_written(file);
 }
 
 void dw::load_state(Model::StateDict& state, const std::string& path) {
@@ -167,6 +174,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
     }
 
     file << "}";
+    check_written(file);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
@@ -278,6 +286,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
         write_sequence(op_info.out_ids, file);
         write_attributes(op_info.attrs, file);
     }
+    check_written(file);
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-- 
2.43.0


From a859e27fcb45f07b1acb6368bf48129622ccfbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 20/32] fix: open the file for reading only in load_cfg

---
 src/serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index d627ef5..9858303 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -290,7 +290,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     return dw::load_cfg(file);
 }
 
-- 
2.43.0


From e6b8c34fe74d74d079cfefe08ba2de5a5b2ea0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 21/32] fix: count correct predictions in an integer, float
 saturates at 2^24

---
 src/metrics.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/metrics.cpp b/src/metrics.cpp
index 35d3e91..2f1e87b 100644
--- a/src/metrics.cpp
+++ b/src/metrics.cpp
@@ -20,15 +20,16 @@ float deepworks::metric::accuracy(const deepworks::Tensor& y_pred,
     ConstMatrix y_pred_mat(y_pred.data(), rows, cols);
     ConstVector y_true_vec(y_true.data(), rows);
 
-    float acc = 0;
+    // NB: float can't count more than 2^24 rows.
+    int correct = 0;
     ConstMatrix::Index pred_col;
     // FIXME: Calculate without loop
     for (int i = 0; i < rows; i++) {
         y_pred_mat.row(i).maxCoeff(&pred_col);
         auto label = y_true_vec[i];
-        acc += pred_col == label;
+        correct += pred_col == label;
     }
-    return acc / rows;
+    return static_cast<float>(correct) / rows;
 }
 
 float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
@@ -41,13 +42,14 @@ float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
 
     ConstMatrix y_pred_mat(y_pred.data(), rows, cols);
     ConstMatrix y_true_mat(y_true.data(), rows, cols);
-    float acc = 0;
+    // NB: float can't count more than 2^24 rows.
+    int correct = 0;
     ConstMatrix::Index pred_col, label_col;
     // FIXME: Calculate without loop
     for (int i = 0; i < rows; i++) {
         y_pred_mat.row(i).maxCoeff(&pred_col);
         y_true_mat.row(i).maxCoeff(&label_col);
-        acc += pred_col == label_col;
+        correct += pred_col == label_col;
     }
-    return acc / rows;
+    return static_cast<float>(correct) / rows;
 }
-- 
2.43.0


From 4569defa7be50685dde24e60e065905d8d647ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 22/32] fix: start model from its inputs instead of diving into
 their producers

---
 src/model/graphbuilder.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index b587659..932f897 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stack>
 
 #include <ade/util/zip_range.hpp>   // util::indexed
@@ -7,8 +8,16 @@
 
 #include "model/graphbuilder.hpp"
 
+#include <deepworks/utils/assert.hpp>
+
 namespace graph = deepworks::graph;
 
+static bool isInput(const deepworks::Placeholders& ins, const deepworks::Placeholder& ph) {
+    return std::any_of(ins.begin(), ins.end(), [&](const deepworks::Placeholder& in) {
+        return &in.impl() == &ph.impl();
+    });
+}
+
 deepworks::GraphBuilder::GraphBuilder(graph::Graph& g)
     : m_graph(g), m_tgraph(m_graph) {
 }
@@ -36,8 +45,9 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     // In current implementation link output placeholders would be enough ?
     for (auto&& ph : unrolled.all_data) {
         // NB: Input node was connected on previous step.
+        // Model input might have producer, but it isn't part of the model.
         auto&& phimpl = ph.impl();
-        if (!phimpl.call) {
+        if (!phimpl.call || isInput(ins, ph)) {
             continue;
         }
 
@@ -97,10 +107,15 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
         }
         all_data.push_back(data);
 
+        // NB: Model starts from its inputs, so don't dive deeper.
+        if (isInput(ins, data)) {
+            continue;
+        }
+
         auto has_call = data.impl().call;
-        // NB: We reached the node without producer, so we found the input node.
+        // NB: We reached the node without producer, but it isn't model input.
         if (!has_call) {
-            continue;
+            DeepWorks_Throw() << "Model output depends on placeholder which isn't model input";
         }
 
         auto call = has_call.value();
-- 
2.43.0


From 4a1d3c7e8a9170444167de507a7168b6f75755cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 23/32] fix: reject tensors which don't match model inputs and
 outputs

---
 src/runtime/cpu/cpubackend.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index af17c9f..5189e73 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -70,8 +70,10 @@ dwcpu::CPUBackend::CPUBackend(graph::Graph& graph)
 void dwcpu::CPUBackend::bind(const std::vector<deepworks::Tensor>& tensors,
                              const std::vector<ade::NodeHandle>  & handles,
                                    std::vector<deepworks::Tensor>& mem) {
+    DeepWorks_Assert(tensors.size() == handles.size() && "Wrong number of tensors");
     for (int i = 0; i < handles.size(); ++i) {
         const auto& d = m_tgraph.metadata(handles[i]).get<graph::Data>();
+        DeepWorks_Assert(tensors[i].shape() == d.ph.shape() && "Wrong tensor shape");
         mem[d.id] = tensors[i];
     }
 }
@@ -126,11 +128,12 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     bind(outputs     , info.out_nhs, m_mem);
     bind(inputs      , info.in_nhs , m_mem);
 
+    DeepWorks_Assert(grad_outputs.size() == info.out_nhs.size() && "Wrong number of tensors");
     // NB: output gradients passed by user, they must be left untouched.
     for (int i = 0; i < info.out_nhs.size(); ++i) {
         const auto& d = m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>();
         auto& grad = m_grad[d.id];
-        DeepWorks_Assert(grad_outputs[i].total() == grad.total());
+        DeepWorks_Assert(grad_outputs[i].shape() == grad.shape() && "Wrong tensor shape");
         std::transform(grad.data(), grad.data() + grad.total(), grad_outputs[i].data(),
                        grad.data(), std::plus<float>());
     }
-- 
2.43.0


From 4a4501172a216dffb159c9985706ed2ee8b576f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:08 +0000
Subject: [PATCH 24/32] fix: quote layer names in save_dot

---
 src/serialization.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 9858303..db14551 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -132,6 +132,18 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
     }
 }
 
+// NB: Name might contain any symbols, so it must be quoted in dot format.
+static std::string quoted(const std::string& str) {
+    std::string res = "\"";
+    for (auto c : str) {
+        if (c == '"' || c == '\\') {
+            res += '\\';
+        }
+        res += c;
+    }
+    return res + "\"";
+}
+
 void dw::save_dot(const dw::Model::Config& cfg,
                   const std::string& path) {
     std::ofstream file(path, std::ios::out);
@@ -147,8 +159,8 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
     for (const auto& op : cfg.sorted_ops) {
         // FIXME: Dump more info, attributes, parameters, named buffers...
-        file << op.name << " [shape=box, label=\"" << op.name
-                        << " (" << op.type << ")" << "\" ]" << std::endl;
+        file << quoted(op.name) << " [shape=box, label="
+             << quoted(op.name + " (" + op.type + ")") << " ]" << std::endl;
     }
 
     for (const auto& op : cfg.sorted_ops) {
@@ -158,7 +170,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(in_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << name << " -> \"" << op.name << "\" [ label = \"in_port: "
+            file << name << " -> " << quoted(op.name) << " [ label = \"in_port: "
                << port << "\" ]" << std::endl;
         }
 
@@ -168,7 +180,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(out_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << op.name << " -> " << name << " [ label = \"out_port: "
+            file << quoted(op.name) << " -> " << name << " [ label = \"out_port: "
                << port << "\" ];" << std::endl;
         }
     }
-- 
2.43.0


From bb22bec01f8b41f391018c90191de73509fb9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:39 +0000
Subject: [PATCH 25/32] fix: reject convolution and pooling windows which don't
 fit the input

---
 src/expression/nn.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index 90077c8..d219539 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -203,6 +203,20 @@ dw::Shape dw::ELU::outShape(const dw::Shape& in_shape) {
     return in_shape;
 }
 
+// NB: Window must be valid and fit into the padded input.
+static void checkWindow(const dw::Shape& in_shape,
+                        const std::array<int, 2>& kernel,
+                        const std::array<int, 2>& padding,
+                        const std::array<int, 2>& stride) {
+    const std::array<int, 2> in_size = {in_shape[Input::H], in_shape[Input::W]};
+    for (size_t i = 0; i < in_size.size(); ++i) {
+        DeepWorks_Assert(kernel[i]  >  0 && "Kernel must be positive");
+        DeepWorks_Assert(padding[i] >= 0 && "Padding mustn't be negative");
+        DeepWorks_Assert(stride[i]  >  0 && "Stride must be positive");
+        DeepWorks_Assert(kernel[i] <= in_size[i] + 2 * padding[i] && "Kernel mustn't exceed padded input");
+    }
+}
+
 dw::MaxPooling::MaxPooling(const std::array<int, 2>& kernel,
                                   const std::array<int, 2>& padding,
                                   const std::array<int, 2>& stride,
@@ -218,6 +232,7 @@ dw::Shape dw::MaxPooling::outShape(const dw::Shape& in_shape) {
     auto kernel  = m_info.impl().attrs["kernel"].get<std::array<int, 2>>();
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
+    checkWindow(in_shape, kernel, padding, stride);
 
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
@@ -255,6 +270,7 @@ dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
     auto kernel  = m_info.impl().attrs["kernel"].get<std::array<int, 2>>();
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
+    checkWindow(in_shape, kernel, padding, stride);
 
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
-- 
2.43.0


From 545d9fd9bbed556dca4e31d7aefa1f75f066e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 26/32] fix: raise an exception when attribute is requested as
 another type

---
 include/deepworks/layer_info.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/deepworks/layer_info.hpp b/include/deepworks/layer_info.hpp
index 0c21f5c..b21abea 100644
--- a/include/deepworks/layer_info.hpp
+++ b/include/deepworks/layer_info.hpp
@@ -62,7 +62,7 @@ public:
 
     template <typename T>
     const T& get() const {
-        return *std::any_cast<T>(&m_value);
+        return std::any_cast<const T&>(m_value);
     }
 
     AttrType type() const {
-- 
2.43.0


From ba60480d9a2ddc4ba65027946a6e2009cf6bc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 27/32] fix: reject operation without outputs in Model::Build

---
 src/model/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 4a67ffa..48cda52 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -290,7 +290,7 @@ deepworks::Model deepworks::Model::Build(const deepworks::Model::Config& cfg) {
             inps.push_back(id2ph.at(id));
         }
 
-        id2ph.emplace(op.out_ids[0],
+        id2ph.emplace(op.out_ids.at(0),
                 dw::make_layer(op.type, op.name, op.attrs, inps));
     }
 
-- 
2.43.0


From 2882a043cfaf3211242c159ee7323465c8cd6967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 28/32] fix: reject empty shape in Linear

---
 src/expression/nn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index d219539..a50fa04 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -154,7 +154,7 @@ void dw::Linear::init(const Shape& in_shape) {
 }
 
 dw::Shape dw::Linear::outShape(const dw::Shape& in_shape) {
-    DeepWorks_Assert(in_shape.size() != 1u && "Linear layer doesn't work with 1D tensors");
+    DeepWorks_Assert(in_shape.size() > 1u && "Linear layer doesn't work with 1D tensors");
     int units = m_info.impl().attrs["units"].get<int>();
     return {in_shape[0], units};
 }
-- 
2.43.0


From 27ae0f8b860003913240d3b6ea9c664edc5f5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 29/32] fix: keep operation and placeholder nodes apart in
 save_dot

---
 src/serialization.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index db14551..80d605b 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -144,6 +144,11 @@ static std::string quoted(const std::string& str) {
     return res + "\"";
 }
 
+// NB: Operation might be named like placeholder node, so keep them apart.
+static std::string node_id(const dw::Model::Config::OperationInfo& op) {
+    return quoted("Operation_" + op.name);
+}
+
 void dw::save_dot(const dw::Model::Config& cfg,
                   const std::string& path) {
     std::ofstream file(path, std::ios::out);
@@ -159,7 +164,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
     for (const auto& op : cfg.sorted_ops) {
         // FIXME: Dump more info, attributes, parameters, named buffers...
-        file << quoted(op.name) << " [shape=box, label="
+        file << node_id(op) << " [shape=box, label="
              << quoted(op.name + " (" + op.type + ")") << " ]" << std::endl;
     }
 
@@ -170,7 +175,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(in_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << name << " -> " << quoted(op.name) << " [ label = \"in_port: "
+            file << name << " -> " << node_id(op) << " [ label = \"in_port: "
                << port << "\" ]" << std::endl;
         }
 
@@ -180,7 +185,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(out_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << quoted(op.name) << " -> " << name << " [ label = \"out_port: "
+            file << node_id(op) << " -> " << name << " [ label = \"out_port: "
                << port << "\" ];" << std::endl;
         }
     }
-- 
2.43.0


From 54fa561fabf177f4d632be52fdafc850a8373fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:45 +0000
Subject: [PATCH 30/32] fix: reject operation applied again to an input its
 parameters don't fit

---
 src/expression/nn.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index a50fa04..3697d3c 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -140,6 +140,12 @@ dw::Placeholder dw::make_layer(const std::string     & type,
     DeepWorks_Throw() << "Can't create " << type << " layer";
 }
 
+// NB: Operation might be applied several times, its parameters are shared in that case
+// and must fit to every input.
+static void checkFits(const dw::Tensor& tensor, const dw::Shape& shape) {
+    DeepWorks_Assert(tensor.shape() == shape && "Operation was already applied to the input of another shape");
+}
+
 void dw::Linear::init(const Shape& in_shape) {
     int units = m_info.impl().attrs["units"].get<int>();
 
@@ -151,6 +157,8 @@ void dw::Linear::init(const Shape& in_shape) {
 
     // NB: Init bias.
     m_info.impl().params.emplace("bias", dw::Tensor::zeros({units}));
+
+    checkFits(m_info.params().at("weight").data(), {units, second_shape});
 }
 
 dw::Shape dw::Linear::outShape(const dw::Shape& in_shape) {
@@ -187,6 +195,8 @@ void dw::BatchNorm1D::init(const Shape& in_shape) {
     m_info.impl().params.emplace ("beta"        , dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_mean", dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_var" , dw::Tensor::zeros({in_shape[1]}));
+
+    checkFits(m_info.params().at("gamma").data(), {in_shape[1]});
 }
 
 dw::Shape dw::BatchNorm1D::outShape(const dw::Shape& in_shape) {
@@ -262,6 +272,11 @@ void dw::Convolution::init(const Shape& in_shape) {
                                                                       kernel[Kernel::KW]}));
     // NB: Init bias.
     m_info.impl().params.emplace("bias", dw::Tensor::zeros({out_channels}));
+
+    checkFits(m_info.params().at("weight").data(), {out_channels,
+                                                    in_shape[Input::C],
+                                                    kernel[Kernel::KH],
+                                                    kernel[Kernel::KW]});
 }
 
 dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
@@ -301,6 +316,8 @@ deepworks::Dropout::Dropout(float p, std::string name)
 
 void dw::Dropout::init(const Shape& in_shape) {
     m_info.impl().params.emplace("mask", dw::Tensor::zeros(in_shape));
+
+    checkFits(m_info.params().at("mask").data(), in_shape);
 }
 
 deepworks::Shape deepworks::Dropout::outShape(const deepworks::Shape& in_shape) {
@@ -328,6 +345,8 @@ void dw::BatchNorm2D::init(const Shape& in_shape) {
     m_info.impl().params.emplace ("beta"        , dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_mean", dw::Tensor::zeros({in_shape[1]}));
     m_info.impl().buffers.emplace("running_var" , dw::Tensor::zeros({in_shape[1]}));
+
+    checkFits(m_info.params().at("gamma").data(), {in_shape[1]});
 }
 
 deepworks::Shape deepworks::BatchNorm2D::outShape(const deepworks::Shape& in_shape) {
-- 
2.43.0


From 07a42f455b8bf41bb177084ea29bb7f78e21ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 31/32] fix: copying a non-const attribute recursed until the
 stack was exhausted

---
 include/deepworks/layer_info.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/layer_info.hpp b/include/deepworks/layer_info.hpp
index b21abea..2788946 100644
--- a/include/deepworks/layer_info.hpp
+++ b/include/deepworks/layer_info.hpp
@@ -5,6 +5,7 @@
 #include <any>
 #include <unordered_map>
 #include <memory>
+#include <type_traits>
 
 #include <deepworks/parameter.hpp>
 #include <deepworks/tensor.hpp>
@@ -53,7 +54,9 @@ class Attribute {
 public:
     Attribute() = default;
 
-    template <typename T>
+    // NB: Must not be chosen to copy a non-const attribute.
+    template <typename T,
+              typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Attribute>>>
     Attribute(T&& value)
         : m_value(std::forward<T>(value)),
           m_type (AttrTraits<typename std::decay<T>::type>::type),
-- 
2.43.0


From a6abf566c2e730164e42cfcbf140b071c481ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 32/32] fix: reading an exception's description invalidated the
 one read before

---
 include/deepworks/utils/assert.hpp | 1 +
 src/utils/assert.cpp               | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/utils/assert.hpp b/include/deepworks/utils/assert.hpp
index 597cab1..2fd726c 100644
--- a/include/deepworks/utils/assert.hpp
+++ b/include/deepworks/utils/assert.hpp
@@ -17,6 +17,7 @@ public:
     template <typename T>
     DeepWorksException& operator<<(const T& arg) noexcept {
         m_impl->stream << arg;
+        m_impl->message = m_impl->stream.str();
         return *this;
     }
 
diff --git a/src/utils/assert.cpp b/src/utils/assert.cpp
index 2deeb8d..b18c96d 100644
--- a/src/utils/assert.cpp
+++ b/src/utils/assert.cpp
@@ -10,9 +10,10 @@ deepworks::utils::DeepWorksException::DeepWorksException(int line,
     m_impl->stream << "Failed: " << m_impl->filename << " in function: "
                                  << m_impl->func     << " in line: "
                                  << m_impl->line     << std::endl;
+    m_impl->message = m_impl->stream.str();
 }
 
 const char* deepworks::utils::DeepWorksException::what() const noexcept {
-    m_impl->message = m_impl->stream.str();
+    // NB: The returned pointer must stay valid, so message isn't rebuilt here.
     return m_impl->message.c_str();
 }
-- 
2.43.0

