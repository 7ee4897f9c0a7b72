// C26: the shared state of the stores and the locks that protect it. Every
// exported operation of a store reads memory it has not allocated itself under
// the store's lock, writes it under the exclusive lock, and hands out none of it.

guard [C26] storage.Memory.Index by mu
guard [C26] storage.Memory.FieldDocument by mu
guard [C26] storage.Memory.FieldLength by mu
guard [C26] storage.Memory.FieldSize by mu
guard [C26] storage.Memory.NumberFieldTerm by mu
guard [C26] storage.Disk.index by mu
guard [C26] storage.Disk.fieldLength by mu
guard [C26] storage.Disk.fieldSize by mu
guard [C26] storage.Disk.numberFieldTerm by mu

// the term counts of a saved field: no operation writes them
frozen model.Field.TF
