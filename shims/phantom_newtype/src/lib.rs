//! Stand-in for dfinity/ic's phantom_newtype: typed identifiers and amounts.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::{cmp::Ordering, fmt, hash, marker::PhantomData, str::FromStr};

macro_rules! newtype {
    ($Name:ident) => {
        pub struct $Name<Entity, Repr>(Repr, PhantomData<fn(Entity) -> Entity>);
        impl<E, R> $Name<E, R> {
            pub const fn new(repr: R) -> Self {
                Self(repr, PhantomData)
            }
            pub const fn get_ref(&self) -> &R {
                &self.0
            }
        }
        impl<E, R: Copy> $Name<E, R> {
            pub const fn get(self) -> R {
                self.0
            }
        }
        impl<E, R> AsRef<R> for $Name<E, R> {
            fn as_ref(&self) -> &R {
                &self.0
            }
        }
        impl<E, R: Clone> Clone for $Name<E, R> {
            fn clone(&self) -> Self {
                Self::new(self.0.clone())
            }
        }
        impl<E, R: Copy> Copy for $Name<E, R> {}
        impl<E, R: PartialEq> PartialEq for $Name<E, R> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<E, R: Eq> Eq for $Name<E, R> {}
        impl<E, R: PartialOrd> PartialOrd for $Name<E, R> {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                self.0.partial_cmp(&o.0)
            }
        }
        impl<E, R: Ord> Ord for $Name<E, R> {
            fn cmp(&self, o: &Self) -> Ordering {
                self.0.cmp(&o.0)
            }
        }
        impl<E, R: hash::Hash> hash::Hash for $Name<E, R> {
            fn hash<H: hash::Hasher>(&self, s: &mut H) {
                self.0.hash(s)
            }
        }
        impl<E, R: fmt::Debug> fmt::Debug for $Name<E, R> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<E, R: fmt::Display> fmt::Display for $Name<E, R> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<E, R> From<R> for $Name<E, R> {
            fn from(r: R) -> Self {
                Self::new(r)
            }
        }
        impl<E, R: Default> Default for $Name<E, R> {
            fn default() -> Self {
                Self::new(R::default())
            }
        }
        impl<E, R: FromStr> FromStr for $Name<E, R> {
            type Err = R::Err;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                s.parse().map(Self::new)
            }
        }
        impl<E, R: Serialize> Serialize for $Name<E, R> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(s)
            }
        }
        impl<'de, E, R: Deserialize<'de>> Deserialize<'de> for $Name<E, R> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                R::deserialize(d).map(Self::new)
            }
        }
        impl<E, R: candid::CandidType> candid::CandidType for $Name<E, R> {
            fn _ty() -> candid::types::Type {
                R::_ty()
            }
            fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
                self.0.idl_serialize(s)
            }
        }
    };
}
newtype!(Id);
newtype!(AmountOf);
