package api

import (
	"context"

	"github.com/Vivino/rankdb"
)

// VVServer sets what StartServer sets for the controllers.
func VVServer(m *rankdb.Manager, c rankdb.Cache, b rankdb.Bucket) {
	db, cache, updateBucket, bgCtx = m, c, b, context.Background()
}
