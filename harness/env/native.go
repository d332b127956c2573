package env

import (
	"reflect"

	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	proto "github.com/cosmos/gogoproto/proto"
)

// Registry resolves packed messages when the harness is compiled natively.
var registry codectypes.InterfaceRegistry

func init() {
	registry = codectypes.NewInterfaceRegistry()
}

func unpackNative(any *codectypes.Any, ptr interface{}) error {
	if any == nil || any.TypeUrl == "" {
		return nil
	}
	rv := reflect.ValueOf(ptr).Elem()
	if c := any.GetCachedValue(); c != nil {
		rv.Set(reflect.ValueOf(c))
		return nil
	}
	name := any.TypeUrl
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			name = name[i+1:]
			break
		}
	}
	typ := proto.MessageType(name)
	m := reflect.New(typ.Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(any.Value, m); err != nil {
		return err
	}
	n, err := codectypes.NewAnyWithValue(m)
	if err != nil {
		return err
	}
	*any = *n
	rv.Set(reflect.ValueOf(m))
	return nil
}
