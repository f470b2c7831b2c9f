// Copyright 2021 ByteDance Inc.
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//     http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.

package xxhash3

import "unsafe"

func accumAVX2(acc *[8]uint64, xinput, xsecret unsafe.Pointer, len uintptr)
func accumSSE2(acc *[8]uint64, xinput, xsecret unsafe.Pointer, len uintptr)

func accum(xacc *[8]uint64, xinput, xsecret unsafe.Pointer, l uintptr) {
	if avx2 {
		accumAVX2(xacc, xinput, xsecret, l)
	} else if sse2 {
		accumSSE2(xacc, xinput, xsecret, l)
	} else {
		accumScalar(xacc, xinput, xsecret, l)
	}
}
