// Stand-in for the stats library, which is not part of this checkout and not
// needed for reading sample sets.
