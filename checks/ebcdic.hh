// The EBCDIC-US code page, independent of the tree's own table.
#pragma once
static const int NO = -1;
// EBCDIC byte -> ASCII character, NO where ASCII has no such character
static const int e2a[256] = {
    0x00, 0x01, 0x02, 0x03,   NO, 0x09,   NO, 0x7f,   NO,   NO,   NO, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f,
    0x10, 0x11, 0x12, 0x13,   NO,   NO, 0x08,   NO, 0x18, 0x19,   NO,   NO, 0x1c, 0x1d, 0x1e, 0x1f,
      NO,   NO,   NO,   NO,   NO, 0x0a, 0x17, 0x1b,   NO,   NO,   NO,   NO,   NO, 0x05, 0x06, 0x07,
      NO,   NO, 0x16,   NO,   NO,   NO,   NO, 0x04,   NO,   NO,   NO,   NO, 0x14, 0x15,   NO, 0x1a,
    0x20,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO, 0x2e, 0x3c, 0x28, 0x2b, 0x7c,
    0x26,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO, 0x21, 0x24, 0x2a, 0x29, 0x3b,   NO,
    0x2d, 0x2f,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO, 0x2c, 0x25, 0x5f, 0x3e, 0x3f,
      NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO, 0x60, 0x3a, 0x23, 0x40, 0x27, 0x3d, 0x22,
      NO, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69,   NO,   NO,   NO,   NO,   NO,   NO,
      NO, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72,   NO,   NO,   NO,   NO,   NO,   NO,
      NO, 0x7e, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a,   NO,   NO,   NO,   NO,   NO,   NO,
      NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,   NO,
    0x7b, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49,   NO,   NO,   NO,   NO,   NO,   NO,
    0x7d, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x52,   NO,   NO,   NO,   NO,   NO,   NO,
    0x5c,   NO, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a,   NO,   NO,   NO,   NO,   NO,   NO,
    0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39,   NO,   NO,   NO,   NO,   NO,   NO,
};
