package pasta

// SHA-256 of the round constants and the matrix (Montgomery words, little endian) as published for the
// width-3 Pasta instance, taken from the reviewed tables.
const publishedTables = "bafcf3525998062b2a1295644e47173dcb9d2f919ac630a0dacf1c976ee41d2d"
