// Overlay: glog private header; only absl flags are used by autofdo.
