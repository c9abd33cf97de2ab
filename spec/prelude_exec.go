package pdf

import "reflect"

func sp_equal(a, b any) bool { return reflect.DeepEqual(a, b) }
