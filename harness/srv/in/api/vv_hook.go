package api

import (
	"time"

	"github.com/Vivino/rankdb"
)

// VVConfig is a configuration of a server.
type VVConfig struct {
	MasterSet, Storage, BackupSet, BackupStorage string
	BackupEvery                                  int
	SaveEvery, PruneEvery                        time.Duration
	CacheEntries                                 int
	CacheType                                    string
	MaxUpdates                                   int
	Path                                         string
	NoSync, NoGrowSync                           bool
	Hosts, Namespace                             string
	WriteBlockSize                               int
	Lazy                                         bool
	LazyLimit, LazyFlush, LazySavers             int
	LazyTime                                     time.Duration
	Retry                                        bool
	RetryTimeout                                 time.Duration
}

// VVSetup is what reading a configuration in a new process does.
func VVSetup(c VVConfig) {
	db, cache, lazySaver, updateBucket = nil, nil, nil, nil
	config.MasterSet, config.Storage, config.BackupSet, config.BackupStorage = c.MasterSet, c.Storage, c.BackupSet, c.BackupStorage
	config.BackupEvery, config.SaveEvery.Duration, config.PruneEvery.Duration = c.BackupEvery, c.SaveEvery, c.PruneEvery
	config.CacheEntries, config.CacheType, config.MaxUpdates = c.CacheEntries, c.CacheType, c.MaxUpdates
	config.Badger.Path, config.Badger.NoSync = c.Path, c.NoSync
	config.BoltDB.FilePath, config.BoltDB.NoSync, config.BoltDB.NoGrowSync = c.Path, c.NoSync, c.NoGrowSync
	config.Aerospike.Hosts, config.Aerospike.Namespace, config.Aerospike.WriteBlockSize = c.Hosts, c.Namespace, c.WriteBlockSize
	config.LazySaver.Enabled, config.LazySaver.LimitItems, config.LazySaver.FlushAtItems = c.Lazy, c.LazyLimit, c.LazyFlush
	config.LazySaver.Savers, config.LazySaver.MaxTime.Duration, config.LazySaver.SaveTimeout.Duration = c.LazySavers, c.LazyTime, time.Hour
	config.StorageRetry.Enabled, config.StorageRetry.OpTimeout = c.Retry, nil
	if c.RetryTimeout != 0 {
		config.StorageRetry.OpTimeout = &duration{c.RetryTimeout}
	}
}

// VVState is what the controllers of the server use.
func VVState() (*rankdb.Manager, rankdb.Cache, rankdb.Bucket) { return db, cache, updateBucket }
