/* A client of the C API, written against the installed headers only. It asks a
 * file everything and hands each answer to `emit`. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <libopenraw/libopenraw.h>

typedef void (*emit_fn)(void *ctx, const char *key, const void *data, size_t len);

struct out {
    emit_fn emit;
    void *ctx;
    char key[160];
};

struct plan {
    uint32_t flags; /* 1: release the file before reading objects; 2: abridged
                       strings; 4: extra array space; 8: optional pointers are NULL;
                       16: the iterator outlives the file */
    uint32_t type;
    const uint32_t *sizes;
    size_t sizes_len;
    const char *const *keys;
    size_t keys_len;
    const uint32_t *tags;
    size_t tags_len;
    const uint32_t *options;
    size_t options_len;
};

#define KEY(...) snprintf(o->key, sizeof o->key, __VA_ARGS__)

static void bytes(struct out *o, const void *p, size_t len)
{
    o->emit(o->ctx, o->key, p, len);
}

static void num(struct out *o, int64_t v)
{
    bytes(o, &v, sizeof v);
}

static void str(struct out *o, const char *s)
{
    if (s == NULL) {
        bytes(o, "\xff(null)", 7);
    } else {
        bytes(o, s, strlen(s));
    }
}

static void ptr(struct out *o, const void *p, size_t len)
{
    if (p == NULL) {
        bytes(o, "\xff(null)", 7);
    } else {
        bytes(o, p, len);
    }
}

static void matrix(struct out *o, ORRawFileRef f, const char *name,
                   or_error (*get)(ORRawFileRef, double *, uint32_t *), int extra)
{
    uint32_t size = 0;
    or_error e = get(f, NULL, &size);
    KEY("%s.probe", name);
    num(o, e);
    if (e == OR_ERROR_BUF_TOO_SMALL) {
        uint32_t need = size;
        KEY("%s.need", name);
        num(o, need);
        if (need > 0 && need < 100000) {
            double *m;
            if (need > 1) {
                size = need - 1;
                m = malloc(sizeof(double) * (need - 1));
                KEY("%s.short", name);
                num(o, get(f, m, &size));
                KEY("%s.short.need", name);
                num(o, size);
                free(m);
            }
            size = need + extra;
            m = malloc(sizeof(double) * size);
            KEY("%s.get", name);
            num(o, get(f, m, &size));
            KEY("%s.size", name);
            num(o, size);
            KEY("%s.data", name);
            bytes(o, m, sizeof(double) * (size < need + extra ? size : need + extra));
            free(m);
        }
    }
}

static void dir(struct out *o, const char *name, ORIfdDirRef d, const struct plan *p)
{
    KEY("%s.null", name);
    num(o, d == NULL);
    if (d == NULL) {
        return;
    }
    KEY("%s.count", name);
    num(o, or_ifd_count_tags(d));
    KEY("%s.type", name);
    num(o, or_ifd_get_type(d));
    KEY("%s.id", name);
    str(o, or_ifd_get_makernote_id(d));
    for (size_t i = 0; i < p->tags_len; i++) {
        KEY("%s.name.%u", name, p->tags[i]);
        str(o, or_ifd_get_tag_name(d, p->tags[i]));
    }
}

static void thumbnail(struct out *o, const char *name, ORThumbnailRef t, const struct plan *p)
{
    uint32_t x = 0, y = 0;
    KEY("%s.null", name);
    num(o, t == NULL);
    if (t == NULL) {
        return;
    }
    KEY("%s.format", name);
    num(o, or_thumbnail_format(t));
    if (p->flags & 8) {
        or_thumbnail_dimensions(t, NULL, NULL);
    }
    or_thumbnail_dimensions(t, &x, NULL);
    or_thumbnail_dimensions(t, NULL, &y);
    KEY("%s.x", name);
    num(o, x);
    KEY("%s.y", name);
    num(o, y);
    x = y = 0;
    or_thumbnail_dimensions(t, &x, &y);
    KEY("%s.xy", name);
    num(o, ((int64_t)x << 32) | y);
    KEY("%s.data", name);
    ptr(o, or_thumbnail_data(t), or_thumbnail_data_size(t));
    KEY("%s.release", name);
    num(o, or_thumbnail_release(t));
}

static void rect(struct out *o, const char *name, const char *what, ORRawDataRef r,
                 or_error (*get)(ORRawDataRef, uint32_t *, uint32_t *, uint32_t *, uint32_t *))
{
    uint32_t v[4] = {0, 0, 0, 0}, w[4] = {0, 0, 0, 0};
    KEY("%s.%s.err", name, what);
    num(o, get(r, &v[0], &v[1], &v[2], &v[3]));
    KEY("%s.%s", name, what);
    bytes(o, v, sizeof v);
    get(r, &w[0], NULL, NULL, NULL);
    get(r, NULL, &w[1], NULL, NULL);
    get(r, NULL, NULL, &w[2], NULL);
    get(r, NULL, NULL, NULL, &w[3]);
    KEY("%s.%s.single", name, what);
    bytes(o, w, sizeof w);
}

static void rawdata(struct out *o, const char *name, ORRawDataRef r, const struct plan *p)
{
    KEY("%s.null", name);
    num(o, r == NULL);
    if (r == NULL) {
        return;
    }
    uint32_t x = 0, y = 0;
    KEY("%s.format", name);
    num(o, or_rawdata_format(r));
    or_rawdata_dimensions(r, &x, NULL);
    or_rawdata_dimensions(r, NULL, &y);
    KEY("%s.x", name);
    num(o, x);
    KEY("%s.y", name);
    num(o, y);
    KEY("%s.size", name);
    num(o, or_rawdata_data_size(r));
    KEY("%s.data", name);
    ptr(o, or_rawdata_data(r), or_rawdata_data_size(r));
    KEY("%s.bpc", name);
    num(o, or_rawdata_bpc(r));
    KEY("%s.compression", name);
    num(o, or_rawdata_get_compression(r));
    KEY("%s.cfa", name);
    num(o, or_rawdata_get_cfa_pattern_type(r));
    ORMosaicInfoRef m = or_rawdata_get_mosaicinfo(r);
    KEY("%s.mosaic.null", name);
    num(o, m == NULL);
    if (m) {
        uint16_t count = 0xffff;
        KEY("%s.mosaic.type", name);
        num(o, or_mosaicinfo_get_type(m));
        const uint8_t *pattern = or_mosaicinfo_get_pattern(m, &count);
        KEY("%s.mosaic", name);
        bytes(o, pattern, pattern ? count : 0);
    }
    uint16_t *bw = malloc(8), *wh = malloc(8);
    memset(bw, 0, 8);
    memset(wh, 0, 8);
    KEY("%s.levels.err", name);
    num(o, or_rawdata_levels(r, bw, NULL));
    or_rawdata_levels(r, NULL, wh);
    KEY("%s.blacks", name);
    bytes(o, bw, 8);
    KEY("%s.whites", name);
    bytes(o, wh, 8);
    memset(bw, 0, 8);
    memset(wh, 0, 8);
    or_rawdata_levels(r, bw, wh);
    KEY("%s.levels.both", name);
    bytes(o, bw, 8);
    KEY("%s.levels.both.w", name);
    bytes(o, wh, 8);
    free(bw);
    free(wh);
    double *wb = calloc(4, sizeof(double));
    or_error e = or_rawdata_as_shot_neutral(r, wb);
    KEY("%s.neutral.err", name);
    num(o, e);
    KEY("%s.neutral", name);
    bytes(o, wb, e == OR_ERROR_NONE ? 32 : 0);
    double wx = 0, wy = 0;
    e = or_rawdata_as_shot_white_xy(r, &wx, &wy);
    KEY("%s.xy.err", name);
    num(o, e);
    wb[0] = wx;
    wb[1] = wy;
    KEY("%s.xy", name);
    bytes(o, wb, e == OR_ERROR_NONE ? 16 : 0);
    free(wb);
    for (uint32_t i = 0; i < 4; i++) {
        uint32_t n = 0;
        const double *cm = or_rawdata_get_colour_matrix(r, i, &n);
        KEY("%s.matrix.%u", name, i);
        ptr(o, cm, n * sizeof(double));
        if (p->flags & 8) {
            KEY("%s.matrix.%u.same", name, i);
            num(o, or_rawdata_get_colour_matrix(r, i, NULL) == cm);
        }
    }
    rect(o, name, "area", r, or_rawdata_get_active_area);
    rect(o, name, "crop", r, or_rawdata_get_user_crop);
    uint32_t v[2] = {0, 0};
    KEY("%s.aspect.err", name);
    num(o, or_rawdata_get_user_aspect_ratio(r, &v[0], &v[1]));
    KEY("%s.aspect", name);
    bytes(o, v, sizeof v);
    KEY("%s.release", name);
    num(o, or_rawdata_release(r));
}

static void bitmap(struct out *o, const char *name, ORBitmapDataRef b)
{
    uint32_t x = 0, y = 0;
    KEY("%s.null", name);
    num(o, b == NULL);
    if (b == NULL) {
        return;
    }
    KEY("%s.format", name);
    num(o, or_bitmapdata_format(b));
    or_bitmapdata_dimensions(b, &x, NULL);
    or_bitmapdata_dimensions(b, NULL, &y);
    KEY("%s.x", name);
    num(o, x);
    KEY("%s.y", name);
    num(o, y);
    KEY("%s.size", name);
    num(o, or_bitmapdata_data_size(b));
    KEY("%s.data", name);
    ptr(o, or_bitmapdata_data(b), or_bitmapdata_data_size(b));
    KEY("%s.release", name);
    num(o, or_bitmapdata_release(b));
}

static void value(struct out *o, const char *name, ORConstMetaValueRef v, const struct plan *p)
{
    KEY("%s.value.null", name);
    num(o, v == NULL);
    if (v == NULL) {
        return;
    }
    KEY("%s.vcount", name);
    num(o, or_metavalue_get_count(v));
    KEY("%s.string", name);
    str(o, or_metavalue_get_string(v));
    KEY("%s.as", name);
    str(o, or_metavalue_get_as_string(v, !(p->flags & 2)));
}

/* Everything there is to know about a file in memory. */
void orv_capi_dump(emit_fn emit, void *ctx, const uint8_t *data, uint32_t len, const struct plan *p)
{
    struct out out = {emit, ctx, ""}, *o = &out;
    char name[64];
    uint8_t *copy = malloc(len ? len : 1);
    memcpy(copy, data, len);
    ORRawFileRef f = or_rawfile_new_from_memory(copy, len, (or_rawfile_type)p->type);
    /* the library has its own */
    memset(copy, 0x5a, len);
    free(copy);
    KEY("open");
    num(o, f != NULL);
    if (f == NULL) {
        return;
    }
    KEY("type");
    num(o, or_rawfile_get_type(f));
    KEY("typeid");
    num(o, or_rawfile_get_typeid(f));
    KEY("vendorid");
    num(o, or_rawfile_get_vendorid(f));
    KEY("orientation");
    num(o, or_rawfile_get_orientation(f));
    KEY("illuminant1");
    num(o, or_rawfile_get_calibration_illuminant1(f));
    KEY("illuminant2");
    num(o, or_rawfile_get_calibration_illuminant2(f));
    KEY("origin");
    num(o, or_rawfile_get_colour_matrix_origin(f));
    matrix(o, f, "cm1", or_rawfile_get_colourmatrix1, p->flags & 4 ? 5 : 0);
    matrix(o, f, "cm2", or_rawfile_get_colourmatrix2, p->flags & 4 ? 1 : 0);

    size_t n = 0;
    const uint32_t *sizes = or_rawfile_get_thumbnail_sizes(f, &n);
    KEY("sizes");
    ptr(o, sizes, n * sizeof(uint32_t));

    ORThumbnailRef *thumbs = calloc(p->sizes_len + 1, sizeof *thumbs);
    for (size_t i = 0; i < p->sizes_len; i++) {
        or_error e = (or_error)99;
        thumbs[i] = or_rawfile_get_thumbnail(f, p->sizes[i], &e);
        KEY("thumb%u.err", p->sizes[i]);
        num(o, e);
        if (p->flags & 8) {
            ORThumbnailRef t = or_rawfile_get_thumbnail(f, p->sizes[i], NULL);
            KEY("thumb%u.noerr", p->sizes[i]);
            num(o, t == NULL);
            or_thumbnail_release(t);
        }
    }
    /* the array belongs to the file */
    if (sizes) {
        KEY("sizes.again");
        bytes(o, sizes, n * sizeof(uint32_t));
    }
    ORRawDataRef raws[2];
    for (int i = 0; i < 2; i++) {
        or_error e = (or_error)99;
        raws[i] = or_rawfile_get_rawdata(f, i ? OR_OPTIONS_DONT_DECOMPRESS : OR_OPTIONS_NONE, &e);
        KEY("raw%d.err", i);
        num(o, e);
    }
    ORBitmapDataRef *images = calloc(p->options_len + 1, sizeof *images);
    for (size_t i = 0; i < p->options_len; i++) {
        or_error e = (or_error)99;
        images[i] = or_rawfile_get_rendered_image(f, p->options[i], p->flags & 8 ? NULL : &e);
        if (!(p->flags & 8)) {
            KEY("image%u.err", p->options[i]);
            num(o, e);
        }
    }
    ORMetaValueRef *values = calloc(p->keys_len + 1, sizeof *values);
    for (size_t i = 0; i < p->keys_len; i++) {
        values[i] = or_rawfile_get_metavalue(f, p->keys[i]);
    }
    static const int dirs[] = {OR_IFD_OTHER, OR_IFD_MAIN,   OR_IFD_EXIF, OR_IFD_MNOTE,
                               OR_IFD_RAW,   OR_IFD_SUBIFD, 6,           OR_IFD_INVALID};
    for (size_t i = 0; i < sizeof dirs / sizeof *dirs; i++) {
        snprintf(name, sizeof name, "ifd%d", dirs[i]);
        dir(o, name, or_rawfile_get_ifd(f, (or_ifd_dir_type)dirs[i]), p);
    }
    ORMetadataIteratorRef it = or_rawfile_get_metadata_iterator(f);
    KEY("iterator");
    num(o, it != NULL);
    if (p->flags & 16) {
        or_rawfile_release(f);
        f = NULL;
    }
    uint32_t count = 0, in_dir = 0;
    if (it) {
        KEY("meta.before");
        num(o, or_metadata_iterator_get_entry(it) == NULL);
        while (count < 100000 && or_metadata_iterator_next(it)) {
            ORMetadataRef m = or_metadata_iterator_get_entry(it);
            ORIfdDirRef d = or_metadata_iterator_get_dir(it);
            snprintf(name, sizeof name, "meta%u", count);
            KEY("%s.key", name);
            str(o, or_metadata_get_key(m));
            KEY("%s.type", name);
            num(o, or_metadata_get_type(m));
            value(o, name, or_metadata_get_value(m), p);
            /* an entry comes out of the current directory */
            if (d && or_ifd_count_tags(d) > 0 && or_ifd_get_type(d) != OR_IFD_INVALID) {
                in_dir++;
            }
            count++;
        }
        KEY("meta.after");
        num(o, or_metadata_iterator_get_entry(it) == NULL);
        KEY("meta.next");
        num(o, or_metadata_iterator_next(it));
        or_metadata_iterator_free(it);
    }
    KEY("meta.count");
    num(o, count);
    KEY("meta.dirs");
    num(o, in_dir);

    if (p->flags & 1 && f) {
        or_rawfile_release(f);
        f = NULL;
    }
    for (size_t i = 0; i < p->sizes_len; i++) {
        snprintf(name, sizeof name, "thumb%u", p->sizes[i]);
        thumbnail(o, name, thumbs[i], p);
    }
    for (int i = 0; i < 2; i++) {
        snprintf(name, sizeof name, "raw%d", i);
        rawdata(o, name, raws[i], p);
    }
    for (size_t i = 0; i < p->options_len; i++) {
        snprintf(name, sizeof name, "image%u", p->options[i]);
        bitmap(o, name, images[i]);
    }
    for (size_t i = 0; i < p->keys_len; i++) {
        snprintf(name, sizeof name, "value%zu", i);
        value(o, name, values[i], p);
        or_metavalue_release(values[i]);
    }
    free(thumbs);
    free(images);
    free(values);
    if (f) {
        KEY("release");
        num(o, or_rawfile_release(f));
    }
}

/* The functions that take a path. */
void orv_capi_path(emit_fn emit, void *ctx, const char *path, uint32_t type, uint32_t size, uint32_t options)
{
    struct out out = {emit, ctx, ""}, *o = &out;
    struct plan p;
    memset(&p, 0, sizeof p);
    ORRawFileRef f = or_rawfile_new(path, (or_rawfile_type)type);
    KEY("path.open");
    num(o, f != NULL);
    if (f) {
        KEY("path.type");
        num(o, or_rawfile_get_type(f));
        KEY("path.typeid");
        num(o, or_rawfile_get_typeid(f));
        KEY("path.release");
        num(o, or_rawfile_release(f));
    }
    ORThumbnailRef t = NULL;
    or_error e = or_get_extract_thumbnail(path, size, &t);
    KEY("path.thumb.err");
    num(o, e);
    thumbnail(o, "path.thumb", e == OR_ERROR_NONE ? t : NULL, &p);
    ORRawDataRef r = NULL;
    e = or_get_extract_rawdata(path, options, &r);
    KEY("path.raw.err");
    num(o, e);
    rawdata(o, "path.raw", e == OR_ERROR_NONE ? r : NULL, &p);
}

/* What doesn't depend on a file: the lists, and null references. */
void orv_capi_static(emit_fn emit, void *ctx, const char *const *mimes, size_t mimes_len)
{
    struct out out = {emit, ctx, ""}, *o = &out;
    size_t i;
    const char **l = or_get_mime_types();
    for (i = 0; l[i]; i++) {
        KEY("mime%zu", i);
        str(o, l[i]);
    }
    KEY("mimes");
    num(o, i);
    l = or_get_file_extensions();
    for (i = 0; l[i]; i++) {
        KEY("ext%zu", i);
        str(o, l[i]);
    }
    KEY("exts");
    num(o, i);
    for (i = 0; i < mimes_len; i++) {
        KEY("mimetype%zu", i);
        num(o, or_get_type_for_mime_type(mimes[i]));
    }
    uint32_t a, b, c, d;
    size_t n = 7;
    uint16_t w[4], count = 7;
    double m[9];
    or_error e = (or_error)99;
#define NUL(expr)            \
    do {                     \
        KEY("null %s", #expr); \
        num(o, (int64_t)(expr)); \
    } while (0)
    NUL(or_rawfile_new(NULL, OR_RAWFILE_TYPE_UNKNOWN) == NULL);
    NUL(or_rawfile_new_from_memory(NULL, 0, OR_RAWFILE_TYPE_UNKNOWN) == NULL);
    NUL(or_rawfile_release(NULL) == OR_ERROR_NOTAREF);
    NUL(or_rawfile_get_type(NULL) == OR_RAWFILE_TYPE_UNKNOWN);
    NUL(or_rawfile_get_typeid(NULL) == 0);
    NUL(or_rawfile_get_vendorid(NULL) == 0);
    NUL(or_rawfile_get_thumbnail_sizes(NULL, &n) == NULL);
    e = (or_error)99;
    NUL(or_rawfile_get_thumbnail(NULL, 160, &e) == NULL);
    NUL(e == OR_ERROR_NOTAREF);
    e = (or_error)99;
    NUL(or_rawfile_get_rawdata(NULL, 0, &e) == NULL);
    NUL(e == OR_ERROR_NOTAREF);
    e = (or_error)99;
    NUL(or_rawfile_get_rendered_image(NULL, 0, &e) == NULL);
    NUL(e == OR_ERROR_NOTAREF);
    NUL(or_rawfile_get_rendered_image(NULL, 0, NULL) == NULL);
    NUL(or_rawfile_get_thumbnail(NULL, 160, NULL) == NULL);
    NUL(or_rawfile_get_rawdata(NULL, 0, NULL) == NULL);
    NUL(or_rawfile_get_orientation(NULL) == 0);
    a = 9;
    NUL(or_rawfile_get_colourmatrix1(NULL, m, &a) == OR_ERROR_NOTAREF);
    NUL(or_rawfile_get_colourmatrix2(NULL, m, &a) == OR_ERROR_NOTAREF);
    NUL(or_rawfile_get_calibration_illuminant1(NULL) == EV_LIGHTSOURCE_UNKNOWN);
    NUL(or_rawfile_get_calibration_illuminant2(NULL) == EV_LIGHTSOURCE_UNKNOWN);
    NUL(or_rawfile_get_colour_matrix_origin(NULL) == OR_COLOUR_MATRIX_UNKNOWN);
    NUL(or_rawfile_get_metavalue(NULL, "Exif.Image.Model") == NULL);
    NUL(or_rawfile_get_ifd(NULL, OR_IFD_MAIN) == NULL);
    NUL(or_rawfile_get_metadata_iterator(NULL) == NULL);
    NUL(or_rawdata_release(NULL) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_format(NULL) == OR_DATA_TYPE_UNKNOWN);
    NUL(or_rawdata_data(NULL) == NULL);
    NUL(or_rawdata_data_size(NULL) == 0);
    or_rawdata_dimensions(NULL, &a, &b);
    NUL(or_rawdata_get_active_area(NULL, &a, &b, &c, &d) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_get_user_crop(NULL, &a, &b, &c, &d) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_get_user_aspect_ratio(NULL, &a, &b) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_bpc(NULL) == 0);
    NUL(or_rawdata_get_cfa_pattern_type(NULL) == OR_CFA_PATTERN_NONE);
    NUL(or_rawdata_get_mosaicinfo(NULL) == NULL);
    NUL(or_rawdata_get_compression(NULL) == 0);
    NUL(or_rawdata_levels(NULL, w, w) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_as_shot_neutral(NULL, m) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_as_shot_white_xy(NULL, m, m + 1) == OR_ERROR_NOTAREF);
    NUL(or_rawdata_get_colour_matrix(NULL, 1, &a) == NULL);
    NUL(or_thumbnail_release(NULL) == OR_ERROR_NOTAREF);
    NUL(or_thumbnail_format(NULL) == OR_DATA_TYPE_UNKNOWN);
    NUL(or_thumbnail_data(NULL) == NULL);
    NUL(or_thumbnail_data_size(NULL) == 0);
    or_thumbnail_dimensions(NULL, &a, &b);
    NUL(or_bitmapdata_release(NULL) == OR_ERROR_NOTAREF);
    NUL(or_bitmapdata_format(NULL) == OR_DATA_TYPE_UNKNOWN);
    NUL(or_bitmapdata_data(NULL) == NULL);
    NUL(or_bitmapdata_data_size(NULL) == 0);
    or_bitmapdata_dimensions(NULL, &a, &b);
    NUL(or_mosaicinfo_get_type(NULL) == OR_CFA_PATTERN_NONE);
    NUL(or_mosaicinfo_get_pattern(NULL, &count) == NULL);
    NUL(or_ifd_count_tags(NULL) == -1);
    NUL(or_ifd_get_makernote_id(NULL) == NULL);
    NUL(or_ifd_get_tag_name(NULL, 271) == NULL);
    NUL(or_ifd_get_type(NULL) == OR_IFD_INVALID);
    or_metavalue_release(NULL);
    NUL(or_metavalue_get_string(NULL) == NULL);
    NUL(or_metavalue_get_as_string(NULL, true) == NULL);
    NUL(or_metavalue_get_count(NULL) == 0);
    or_metadata_iterator_free(NULL);
    NUL(or_metadata_iterator_next(NULL) == 0);
    NUL(or_metadata_iterator_get_entry(NULL) == NULL);
    NUL(or_metadata_iterator_get_dir(NULL) == NULL);
    NUL(or_metadata_get_key(NULL) == NULL);
    NUL(or_metadata_get_value(NULL) == NULL);
    NUL(or_metadata_get_type(NULL) == 0);
    NUL(or_get_extract_thumbnail("/nonexistent", 160, NULL) == OR_ERROR_NOTAREF);
    NUL(or_get_extract_rawdata("/nonexistent", 0, NULL) == OR_ERROR_NOTAREF);
    NUL(or_get_type_for_mime_type(NULL) == OR_RAWFILE_TYPE_UNKNOWN);
}
