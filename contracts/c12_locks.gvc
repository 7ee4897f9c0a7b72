// C12: the shared state of the caches and the locks that protect it

guard cache.LRUCache.cache by RWMutex
guard cache.LRUCache.pages by RWMutex
guard cache.LocalMap.store by mu
