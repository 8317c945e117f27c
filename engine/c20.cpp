#include "pbt.h"
#include "lib.h"
#include <cstdio>
#include "pico-cnn/io/read_jpeg.h"
#include <jpeglib.h>
using namespace pbt;
const char *PROP_ID = "C20";
const char *PROP_RULE = "a case is a JPEG file made with drawn size (rarely wider than 21845), grey or colour, quality, subsampling, progressive or optimised coding, restart interval, trailing bytes and target range, or a missing file; non-trivial: more than one pixel; distinct by choice bytes";
const unsigned QUICK_CASES = 180000, THOROUGH_CASES = 800000;
const unsigned QUICK_FUZZ = 2000, THOROUGH_FUZZ = 100000;

void property(Case &c) {
    bool grey = c.chance(70), missing = c.chance(4), trail = c.chance(80);
    uint32_t w = c.chance(30) ? c.in(17, 200) : c.in(1, 20), h = c.chance(30) ? c.in(17, 120) : c.in(1, 20);
    int big = c.chance(1) ? c.in(1, 3) : 0;
    if (big == 1) { w = 21845 + c.in(0, 40); h = c.in(1, 3); } if (big == 2) { w = 65500; h = 1; } if (big == 3) { h = 65500; w = 1; }
    int quality = c.pick<int>({75, 100, 95, 40, 5, 1});
    int sub = c.in(0, 3), prog = c.chance(60), opt = c.chance(60), restart = c.chance(40) ? c.in(1, 4) : 0;
    uint64_t s = c.u16() + 1; int style = c.in(0, 3);
    uint32_t ncomp = grey ? 1 : 3;
    std::vector<uint8_t> px((size_t)w * h * ncomp);
    for (size_t i = 0; i < px.size(); i++) { uint32_t r = (uint32_t)splitmix(s); px[i] = style == 0 ? i * 5 : style == 1 ? r : style == 2 ? (r % 2 ? 255 : 0) : (i / ncomp / 8 % 2 ? 200 : 30) + 20 * (i % ncomp); }
    static const float lows[] = {0, -1, 0, -128, 0.5f}, highs[] = {255, 1, 1, 127, 0.75f};
    int rk = c.in(0, 4); float lo = lows[rk], hi = highs[rk];
    c.text << (grey ? "grey " : "colour ") << w << "x" << h << " quality " << quality << " subsampling " << sub << (prog ? " progressive" : "") << (opt ? " optimised" : "") << " restart " << restart << " range " << lo << ".." << hi << (trail ? " trailing bytes" : "") << (missing ? " missing" : "");
    c.label(missing ? "missing" : grey ? "grey" : "colour"); if (prog) c.label("progressive"); if (w > 21845) c.label("row beyond 64 KiB");
    c.nontrivial = w * h > 1;
    std::string path = c.scratch + "/missing";
    std::vector<uint8_t> dec((size_t)w * h * ncomp);
    if (!missing) {
        jpeg_compress_struct z; jpeg_error_mgr e; z.err = jpeg_std_error(&e); jpeg_create_compress(&z);
        unsigned char *mem = nullptr; unsigned long size = 0; jpeg_mem_dest(&z, &mem, &size);
        z.image_width = w; z.image_height = h; z.input_components = ncomp; z.in_color_space = grey ? JCS_GRAYSCALE : JCS_RGB;
        jpeg_set_defaults(&z); jpeg_set_quality(&z, quality, TRUE);
        if (!grey) { z.comp_info[0].h_samp_factor = sub & 1 ? 2 : 1; z.comp_info[0].v_samp_factor = sub & 2 ? 2 : 1; }
        if (prog) jpeg_simple_progression(&z);
        z.optimize_coding = opt ? TRUE : FALSE; z.restart_in_rows = restart;
        jpeg_start_compress(&z, TRUE);
        if (c.chance(30)) { std::string com(c.in(1, 6000), 'c'); jpeg_write_marker(&z, JPEG_COM, (const JOCTET *)com.data(), com.size()); }
        while (z.next_scanline < h) { JSAMPROW r = &px[(size_t)z.next_scanline * w * ncomp]; jpeg_write_scanlines(&z, &r, 1); }
        jpeg_finish_compress(&z); jpeg_destroy_compress(&z);
        std::string b((char *)mem, size); free(mem);
        // a comment between the last scan and the end marker
        if (c.chance(20) && size > 2) { uint32_t l = c.in(2, 9000); std::string com = "\xff\xfe"; com += (char)(l >> 8); com += (char)l; com.append(l - 2, 'e'); b.insert(b.size() - 2, com); c.label("comment behind the last scan"); }
        if (trail) b.append(c.in(1, 9000), c.flip() ? '\0' : '\xff');
        path = write_file(c, "j.jpg", b);
        jpeg_decompress_struct d; jpeg_error_mgr de; d.err = jpeg_std_error(&de); jpeg_create_decompress(&d);
        jpeg_mem_src(&d, (const unsigned char *)b.data(), b.size());
        jpeg_read_header(&d, TRUE); jpeg_start_decompress(&d);
        if (d.output_width != w || d.output_height != h || d.output_components != (int)ncomp) c.fail("harness", "reference decoder disagrees with encoder");
        while (d.output_scanline < h) { JSAMPROW r = &dec[(size_t)d.output_scanline * w * ncomp]; jpeg_read_scanlines(&d, &r, 1); }
        jpeg_finish_decompress(&d); jpeg_destroy_decompress(&d);
    }
    fp_t **img = nullptr; uint16_t H = 0, W = 0;
    int fds = open_fds(); size_t m0 = live_bytes();
    int32_t rc = read_jpeg(&img, path.c_str(), lo, hi, &H, &W);
    if (missing) { if (rc == 0) c.fail("accepted", "a missing file was reported as read"); return; }
    if (rc != 0) c.fail("wrong status", "a valid JPEG file was rejected");
    if (W != w || H != h) c.fail("wrong size", std::to_string(W) + "x" + std::to_string(H));
    for (int plane = 0; plane < 3; plane++) for (size_t i = 0; i < (size_t)w * h; i++) {
        uint8_t p = grey ? dec[i] : dec[i * 3 + (2 - plane)];
        double e = lo + p / 255.0 * ((double)hi - lo), g = img[plane][i];
        if (!(std::fabs(g - e) <= 1e-6 * (std::fabs(hi - lo) + std::fabs(lo)))) c.fail("wrong value", "plane " + std::to_string(plane) + " pixel " + std::to_string(i) + ": got " + hexf(g) + ", expected " + hexf(e));
    }
    for (int k = 0; k < 3; k++) free(img[k]);
    free(img);
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
    if ((long)live_bytes() > (long)m0) c.fail("memory leak", "memory remains after the caller freed the planes");
}
