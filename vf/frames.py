"""Byte-level encoders for the raw formats, written from the format descriptions and independent of lsl."""
import struct
import numpy as np

SYNC5C = bytes([0xDE, 0xC0, 0xDE, 0x5C])
FS = 196000000


def drx_header(frame_count, drx_id, second_count, decimation, time_offset, timetag, tuning_word, flags, sync=SYNC5C):
    return (sync + struct.pack('>I', (drx_id << 24) | frame_count)
            + struct.pack('>IHH', second_count, decimation, time_offset)
            + struct.pack('>QII', timetag, tuning_word, flags))


def drx_id(beam, tune, pol, eight=False):
    return (beam & 7) | ((tune & 7) << 3) | (0x40 if eight else 0) | ((pol & 1) << 7)


def drx(re, im, beam=1, tune=1, pol=0, frame_count=0, second_count=0, decimation=10, time_offset=0, timetag=0,
        tuning_word=0, flags=0, rawid=None):
    """re, im: 4096 ints in -8..7"""
    b = ((np.asarray(re).astype(np.int16) & 15) << 4 | (np.asarray(im).astype(np.int16) & 15)).astype(np.uint8)
    return drx_header(frame_count, drx_id(beam, tune, pol) if rawid is None else rawid, second_count, decimation,
                      time_offset, timetag, tuning_word, flags) + b.tobytes()


def drx8(re, im, beam=1, tune=1, pol=0, frame_count=0, second_count=0, decimation=10, time_offset=0, timetag=0,
         tuning_word=0, flags=0, rawid=None):
    b = np.empty(8192, np.int8)
    b[0::2] = re
    b[1::2] = im
    return drx_header(frame_count, drx_id(beam, tune, pol, True) if rawid is None else rawid, second_count, decimation,
                      time_offset, timetag, tuning_word, flags) + b.tobytes()


def tbx(re, im, nstand, nchan, frame_count=0, second_count=0, first_chan=0, timetag=0, frame_id=8, sync=SYNC5C):
    """re, im: (nchan, nstand, 2) ints in -8..7"""
    b = ((np.asarray(re).astype(np.int16) & 15) << 4 | (np.asarray(im).astype(np.int16) & 15)).astype(np.uint8)
    return (sync + struct.pack('>I', (frame_id << 24) | frame_count)
            + struct.pack('>IIHHq', second_count, first_chan, nstand, nchan, timetag) + b.tobytes())


def cor(vis, stand0, stand1, frame_count=0, second_count=0, first_chan=0, gain=0, timetag=0, navg=100, adp_id=2,
        sync=SYNC5C):
    """vis: (nchan, 2, 2) complex64, as stored (native byte order)"""
    return (sync + struct.pack('>I', (adp_id << 24) | frame_count)
            + struct.pack('>IHHqihh', second_count, first_chan, gain, timetag, navg, stand0, stand1)
            + np.ascontiguousarray(vis, '<c8').tobytes())


def vdif(payload, seconds=0, frame_in_second=0, ref_epoch=30, log2_nchan=0, version=1, station=0x4141, thread=0,
         bits=4, is_complex=1, legacy=0, invalid=0, ext=(0, 0, 0, 0), frame_length=None, unassigned=0):
    hs = 16 if legacy else 32
    assert (hs + len(payload)) % 8 == 0
    fl = (hs + len(payload)) // 8 if frame_length is None else frame_length
    w0 = (seconds & 0x3FFFFFFF) | (legacy << 30) | (invalid << 31)
    w1 = (frame_in_second & 0xFFFFFF) | (ref_epoch << 24) | (unassigned << 30)
    w2 = (fl & 0xFFFFFF) | (log2_nchan << 24) | (version << 29)
    w3 = (station & 0xFFFF) | (thread << 16) | ((bits - 1) << 26) | (is_complex << 31)
    h = struct.pack('<IIII', w0, w1, w2, w3)
    if not legacy:
        h += struct.pack('<IIII', *ext)
    return h + bytes(payload)


def drspec(data, timetag=0, time_offset=0, decimation=10, freq=(0, 0), fills=(1, 1, 1, 1), errors=(0, 0, 0, 0), beam=1,
           fmt=0x09, version=2, flags=0, nfreqs=32, nints=10, sat=(0, 0, 0, 0), magic1=0xC0DEC0DE, magic2=0xED0CED0C):
    """data: float32 array as stored: tuning-major, then frequency, then product"""
    h = struct.pack('<IQHHII', magic1, timetag, time_offset, decimation, *freq)
    h += struct.pack('<4I', *fills) + struct.pack('<4B', *errors)
    h += struct.pack('<BBBB', beam, fmt, version, flags) + struct.pack('<II', nfreqs, nints)
    h += struct.pack('<4I', *sat) + struct.pack('<I', magic2)
    return h + np.ascontiguousarray(data, '<f4').tobytes()


# format byte -> products in the order they are stored
DRSPEC_FORMATS = {
    0x01: ['XX'], 0x02: ['XY_real'], 0x04: ['XY_imag'], 0x08: ['YY'], 0x09: ['XX', 'YY'],
    0x06: ['XY_real', 'XY_imag'], 0x0F: ['XX', 'XY_real', 'XY_imag', 'YY'],
    0x10: ['I'], 0x20: ['Q'], 0x40: ['U'], 0x80: ['V'], 0x90: ['I', 'V'], 0xF0: ['I', 'Q', 'U', 'V'],
}


def vdif_levels(raw, bits, integer):
    """Reference unpacking of VDIF payload bytes: little-endian bit order within each byte."""
    raw = np.frombuffer(bytes(raw), np.uint8)
    n = 8 // bits
    codes = np.stack([(raw >> (bits * i)) & ((1 << bits) - 1) for i in range(n)], axis=1).reshape(-1).astype(np.int64)
    if bits == 1:
        lv = np.array([-1.0, 1.0]); li = np.array([-1, 1])
    elif bits == 2:
        lv = np.array([-3.3359, -1.0, 1.0, 3.3359]); li = np.array([-3, -1, 1, 3])
    elif bits == 4:
        lv = np.arange(-8, 8) / 2.95; li = np.arange(-8, 8)
    else:
        lv = (np.arange(256) * 2 - 255) / 256.0; li = np.arange(256) - 128
    return (li if integer else lv)[codes]
