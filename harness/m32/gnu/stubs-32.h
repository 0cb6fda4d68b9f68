/* 32-bit builds use the 64-bit headers; nothing is a stub. */
