// Package sqlite3 is an offline stand-in (side-effect import only).
package sqlite3
