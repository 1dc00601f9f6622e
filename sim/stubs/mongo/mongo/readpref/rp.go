package readpref

type ReadPref struct{}

func Primary() *ReadPref { return &ReadPref{} }
