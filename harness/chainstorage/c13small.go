package chainstorage

import "github.com/KitchenMishap/pudding-shed/intarrayarray"

func init() {
	small13 = func(acc *ConcreteAppendableChainCreator) {
		acc.addrAdditionalTxosIaaCreator = intarrayarray.NewConcreteMapStoreCreator("additionaltxos", acc.addressesFolder, 1, 2, 5, true)
	}
}
