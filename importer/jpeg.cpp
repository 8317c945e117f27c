// jpeg W H COMPONENTS QUALITY RAW JPEG DECODED: packs the raw pixels into a JPEG file and unpacks that file again.
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <jpeglib.h>

int main(int argc, char **argv) {
    if (argc != 8) return 2;
    unsigned w = atoi(argv[1]), h = atoi(argv[2]), n = atoi(argv[3]);
    std::vector<unsigned char> px((size_t) w * h * n);
    FILE *f = fopen(argv[5], "rb");
    if (!f || fread(px.data(), 1, px.size(), f) != px.size()) return 2;
    fclose(f);
    jpeg_error_mgr e;
    jpeg_compress_struct z;
    z.err = jpeg_std_error(&e);
    jpeg_create_compress(&z);
    f = fopen(argv[6], "wb");
    jpeg_stdio_dest(&z, f);
    z.image_width = w, z.image_height = h, z.input_components = n, z.in_color_space = n == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&z);
    jpeg_set_quality(&z, atoi(argv[4]), TRUE);
    jpeg_start_compress(&z, TRUE);
    while (z.next_scanline < h) {
        JSAMPROW r = &px[(size_t) z.next_scanline * w * n];
        jpeg_write_scanlines(&z, &r, 1);
    }
    jpeg_finish_compress(&z);
    jpeg_destroy_compress(&z);
    fclose(f);
    jpeg_decompress_struct d;
    d.err = jpeg_std_error(&e);
    jpeg_create_decompress(&d);
    f = fopen(argv[6], "rb");
    jpeg_stdio_src(&d, f);
    jpeg_read_header(&d, TRUE);
    jpeg_start_decompress(&d);
    FILE *o = fopen(argv[7], "wb");
    std::vector<unsigned char> row((size_t) d.output_width * d.output_components);
    while (d.output_scanline < d.output_height) {
        JSAMPROW r = row.data();
        jpeg_read_scanlines(&d, &r, 1);
        for (unsigned x = 0; x < d.output_width; x++)
            for (unsigned k = 0; k < 3; k++) fputc(row[x * d.output_components + (d.output_components == 1 ? 0 : k)], o);
    }
    fclose(o);
    jpeg_finish_decompress(&d);
    jpeg_destroy_decompress(&d);
    fclose(f);
    return 0;
}
